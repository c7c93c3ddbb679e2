"""Independent reference model: random tensor networks as plain data, and their
dense values computed with numpy only (never with CTL code)."""
import warnings
import numpy as np


def quiet():
    w = warnings.catch_warnings()
    w.__enter__()
    warnings.simplefilter('ignore')
    return w


def rdata(rng, shape, kind):
    """Random data (kind in real, complex, int, pos, sparse), in some memory layout"""
    a = np.asarray(_rdata(rng, tuple(shape), kind))
    if a.ndim > 1 and rng.random() < 0.25:
        a = np.asfortranarray(a)
    elif a.ndim and rng.random() < 0.1:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    return a


def _rdata(rng, shape, kind):
    if kind == 'complex':
        return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    if kind == 'int':
        return rng.integers(-3, 4, shape)
    if kind == 'pos':
        return rng.random(shape) + 0.1
    if kind == 'sparse':
        a = rng.standard_normal(shape)
        return np.where(rng.random(shape) < 0.5, 0.0, a)
    return rng.standard_normal(shape)


KINDS = ['real', 'real', 'complex', 'int', 'pos', 'sparse']


def pick_kind(rng):
    return KINDS[int(rng.integers(len(KINDS)))]


def dense_of_diag(v, rank):
    v = np.asarray(v)
    if rank == 0:
        return np.array(v).reshape(())
    n = v.shape[0]
    out = np.zeros((n,) * rank, dtype=v.dtype)
    for i in range(n):
        out[(i,) * rank] = v[i]
    return out


class Spec:
    """tensors: list of dicts {diag, edges, data}; edge e joins ends[e] = [(t, pos), ...]"""

    def __init__(self):
        self.tensors = []
        self.dims = []      # per edge
        self.ends = []      # per edge
        self.label = {}     # (t,pos) -> label

    @property
    def n(self):
        return len(self.tensors)

    def free(self):
        return [e for e in range(len(self.ends)) if len(self.ends[e]) == 1]

    def dense(self, t):
        d = self.tensors[t]
        return dense_of_diag(d['data'], len(d['edges'])) if d['diag'] else np.asarray(d['data'])

    def shape(self, t):
        return tuple(self.dims[e] for e in self.tensors[t]['edges'])

    def sig(self):
        return [(d['diag'], tuple(d['edges']), str(d['data'].dtype)) for d in self.tensors], tuple(self.dims)

    def free_labels(self):
        return [self.label[self.ends[e][0]] for e in self.free()]

    def value(self, absolute=False):
        """Dense value of the network: axes in the order of free()."""
        ops = []
        for t in range(self.n):
            a = self.dense(t)
            if a.dtype.kind in 'iub':
                a = a.astype(float)
            ops += [np.abs(a) if absolute else a, list(self.tensors[t]['edges'])]
        return contract_dense(ops, self.free())

    def describe(self):
        return ' '.join('{}{}[{}]{}'.format('D' if d['diag'] else 'T', i,
                                            ','.join('e{}:{}'.format(e, self.dims[e]) for e in d['edges']),
                                            d['data'].dtype.kind) for i, d in enumerate(self.tensors))


def contract_dense(ops, out):
    """Sequential dense contraction in our own fixed order (pairwise einsum with index sets);
    the reference does not depend on numpy's or CTL's contraction planner."""
    arrs = [(np.asarray(ops[i]), list(ops[i + 1])) for i in range(0, len(ops), 2)]
    if not arrs:
        return np.array(1.0)
    out = list(out)
    cur, idx = arrs[0]
    rest = arrs[1:]
    while rest:
        # take the tensor sharing most indices with the current one
        k = max(range(len(rest)), key=lambda i: (len(set(rest[i][1]) & set(idx)), -rest[i][0].size, -i))
        b, bi = rest.pop(k)
        later = set(out)
        for _, ri in rest:
            later |= set(ri)
        keep = [i for i in dict.fromkeys(idx + bi) if i in later]
        cur = _einsum2(cur, idx, b, bi, keep)
        idx = keep
    return _einsum1(cur, idx, out)


def _ren(*lists):
    m = {}
    for l in lists:
        for i in l:
            m.setdefault(i, len(m))
    return [[m[i] for i in l] for l in lists]


def _einsum2(a, ai, b, bi, keep):
    x, y, z = _ren(ai, bi, keep)
    return np.einsum(a, x, b, y, z)


def _einsum1(a, ai, out):
    x, z = _ren(ai, out)
    return np.einsum(a, x, z)


def gen_network(rng, n, p_diag=0.3, max_dim=4, extra=None, p_free=0.5, connected=True, kind=None,
                max_rank=5, size_cap=4000, out_cap=4000, dims=None, mixed_kind=True, repeat=0.0, units=0.0):
    """Random multigraph network with n tensors (sometimes a few tensors with many legs, or long ones)."""
    if n <= 3 and dims is None and rng.random() < 0.08:
        if rng.random() < 0.5:
            max_dim, max_rank, p_free = 2, max(max_rank, 9), (max(p_free, 0.75) if p_free else 0)
        else:
            dims = [1, 2, 2, 3, int(rng.integers(5, 20)), int(rng.integers(16, 70))]
    while True:
        s = Spec()
        diag = [bool(rng.random() < p_diag) for _ in range(n)]
        ends = []
        rank = [0] * n
        if connected:
            order = rng.permutation(n)
            for k in range(1, n):
                a, b = int(order[k]), int(order[int(rng.integers(k))])
                ends.append([a, b])
                rank[a] += 1
                rank[b] += 1
        ne = int(rng.integers(0, n + 2)) if extra is None else extra
        for _ in range(ne):
            if n < 2:
                break
            a, b = [int(x) for x in rng.choice(n, 2, replace=False)]
            ends.append([a, b])
            rank[a] += 1
            rank[b] += 1
        for t in range(n):
            while rng.random() < p_free and rank[t] < max_rank:
                ends.append([t])
                rank[t] += 1
        if max(rank + [0]) > max_rank:
            continue
        m = len(ends)
        # dimension classes
        par = list(range(m))

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        for t in range(n):
            if diag[t]:
                es = [e for e in range(m) if t in ends[e]]
                for e in es[1:]:
                    par[find(e)] = find(es[0])
        cls = {}
        for e in range(m):
            r = find(e)
            if r not in cls:
                cls[r] = int(rng.integers(1, max_dim + 1)) if dims is None else int(dims[int(rng.integers(len(dims)))])
        s.dims = [cls[find(e)] for e in range(m)]
        s.ends = [[] for _ in range(m)]
        for t in range(n):
            es = [e for e in range(m) for x in ends[e] if x == t]
            es = [es[i] for i in rng.permutation(len(es))]
            for p, e in enumerate(es):
                s.ends[e].append((t, p))
            s.tensors.append({'diag': diag[t], 'edges': es, 'data': None})
        for e in range(m):
            if len(s.ends[e]) == 2 and rng.random() < 0.5:
                s.ends[e].reverse()
        size = max([int(np.prod(s.shape(t), dtype=float)) for t in range(n)] + [1])
        osize = int(np.prod([s.dims[e] for e in s.free()] + [1], dtype=float))
        if size > size_cap or osize > out_cap or len(s.free()) > 10:
            continue
        break
    k0 = kind or pick_kind(rng)
    for t in range(n):
        k = k0 if (not mixed_kind or rng.random() < 0.7) else pick_kind(rng)
        sh = s.shape(t)
        if diag[t]:
            s.tensors[t]['data'] = np.asarray(rdata(rng, sh[:1], k))
        else:
            s.tensors[t]['data'] = np.asarray(rdata(rng, sh, k))
    if units and rng.random() < units:
        in_units(rng, s)
    label_network(rng, s, repeat=repeat)
    return s


def in_units(rng, s):
    """very large and very small entries: every tensor in its own unit (tests must then compare relative to the scale)"""
    for x in s.tensors:
        if x['data'].dtype.kind in 'fc':
            x['data'] = x['data'] * 10.0 ** int(rng.choice([-14, -9, -5, 0, 4, 8, 13]))


NAMES = ['a', 'b', 'i', 'j', 'u', 'l', 'd', 'r', 'up', 'left', 'x1', 'x2', 'phys', 'aa', 'ab', 'L', 'R', '0', '1',
         'a|b', 'inner:a', 'T', 'a b', 'a_long_name_of_a_leg']


def label_network(rng, s, repeat=0.0):
    """Free legs get network-unique labels; bond legs get arbitrary names, deliberately
    repeated across tensors (names must not matter). They are unique within the tensor,
    except that with probability `repeat` a network has tensors with several legs of the
    same name (then joined through the leg objects)."""
    again = rng.random() < repeat
    pool = ['f{}'.format(i) if rng.random() < 0.5 else 'fr{}e'.format(i) for i in range(len(s.ends))]
    for e in s.free():
        s.label[s.ends[e][0]] = pool[e]
    for t in range(s.n):
        names = [NAMES[i] for i in rng.permutation(len(NAMES))]
        for p, e in enumerate(s.tensors[t]['edges']):
            if (t, p) not in s.label:
                used = [s.label[(t, q)] for q in range(len(s.tensors[t]['edges'])) if (t, q) in s.label]
                if again and used and rng.random() < 0.5:
                    s.label[(t, p)] = used[int(rng.integers(len(used)))]
                else:
                    s.label[(t, p)] = names.pop()


def build_one(s, t, name=None, lib=np, **kw):
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    d = s.tensors[t]
    labels = [s.label[(t, p)] for p in range(len(d['edges']))]
    if d['diag']:
        if len(labels) == 0:
            return DiagonalTensor(data=lib.array(np.array(d['data'])), name=name, shape=(), **kw)
        return DiagonalTensor(data=lib.array(np.array(d['data'])), labels=labels, shape=s.shape(t), name=name, **kw)
    return Tensor(data=lib.array(np.array(d['data'])), labels=labels, name=name, **kw)


def link_all(rng, s, tensors):
    from CTL.tensor.contract.link import makeLink
    es = [e for e in range(len(s.ends)) if len(s.ends[e]) == 2]
    es = [es[i] for i in rng.permutation(len(es))]
    if rng.random() < 0.25:             # all links between the same two tensors at once
        pairs = {}
        for e in es:
            (t1, p1), (t2, p2) = s.ends[e]
            pairs.setdefault((min(t1, t2), max(t1, t2)), []).append((p1, p2) if t1 < t2 else (p2, p1))
        for (t1, t2), ps in pairs.items():
            if rng.random() < 0.5:
                t1, t2, ps = t2, t1, [(b, a) for a, b in ps]
            A, B = tensors[t1], tensors[t2]
            makeLink([s.label[(t1, p)] if A.labels.count(s.label[(t1, p)]) == 1 and rng.random() < 0.5 else A.legs[p] for p, _ in ps],
                     [s.label[(t2, p)] if B.labels.count(s.label[(t2, p)]) == 1 and rng.random() < 0.5 else B.legs[p] for _, p in ps], A, B)
        return
    for e in es:
        (t1, p1), (t2, p2) = s.ends[e]
        A, B = tensors[t1], tensors[t2]
        unique = A.labels.count(s.label[(t1, p1)]) == 1 and B.labels.count(s.label[(t2, p2)]) == 1
        if not unique or rng.random() < 0.5:
            makeLink(A.legs[p1], B.legs[p2])
        else:
            makeLink(s.label[(t1, p1)], s.label[(t2, p2)], A, B)


def build(rng, s, link=True, like=False, lib=np):
    ts = [build_one(s, t, name='N{}'.format(t) if rng.random() < 0.5 else ['N', None][int(rng.integers(2))], lib=lib) for t in range(s.n)]
    if like:
        ts = [t.toTensorLike() for t in ts]
    if link:
        link_all(rng, s, ts)
    return ts


def snapshot(tensors):
    """Everything observable of tensors: identity of legs, bonds, data, metadata."""
    out = []
    for t in tensors:
        out.append((tuple(t.labels), tuple(t.shape), None if t.a is None else np.array(t.a, copy=True),
                    [id(l) for l in t.legs],
                    [None if l.bond is None else frozenset(id(x) for x in l.bond.legs) for l in t.legs],
                    [id(l.tensor) for l in t.legs], t.name, t.degreeOfFreedom, t.typeName()))
    return out


def same_snapshot(mon, before, tensors, msg):
    after = snapshot(tensors)
    names = ['labels', 'shape', 'data', 'leg objects', 'bonds', 'leg owners', 'name', 'degree of freedom', 'type']
    for i, (b, a) in enumerate(zip(before, after)):
        for nm, x, y in zip(names, b, a):
            if nm == 'data':
                ok = (x is None and y is None) or (x is not None and y is not None and x.dtype == y.dtype
                                                   and x.shape == y.shape and np.array_equal(x, y))
            else:
                ok = (x == y)
            mon.check(ok, lambda: '{}: input tensor {} changed its {}: {} -> {}'.format(msg, i, nm, x, y), 'input_unchanged')


def check_links(mon, tensors, msg, external_ok=False):
    """Structural invariants of the leg/bond/tensor graph reachable from `tensors`."""
    ids = set(id(t) for t in tensors)
    seen = set()
    for t in tensors:
        mon.check(len(t.legs) == len(t.shape), lambda: '{}: {} has {} legs for shape {}'.format(msg, t, len(t.legs), t.shape), 'invariant')
        mon.check(t.dim == len(t.legs), lambda: '{}: dim {} for {} legs'.format(msg, t.dim, len(t.legs)), 'invariant')
        if not t.tensorLikeFlag:
            mon.check(np.dtype(t.dtype) == np.dtype(t.a.dtype), lambda: '{}: data type {} for data of type {}'.format(msg, t.dtype, t.a.dtype), 'invariant')
            if t.diagonalFlag:
                want = (t.shape[0],) if t.dim > 0 else ()
                mon.check(tuple(t.a.shape) == want, lambda: '{}: diagonal data shape {} for {}'.format(msg, t.a.shape, t), 'invariant')
            else:
                mon.check(tuple(t.a.shape) == tuple(t.shape), lambda: '{}: data shape'.format(msg), 'invariant')
        names = [leg.name for leg in t.legs]
        for k, nm in enumerate(names):
            first, last = names.index(nm), len(names) - 1 - names[::-1].index(nm)
            mon.check(t.getLeg(nm) is t.legs[first] and t.indexOfLabel(nm, backward=True) == last,
                      lambda: '{}: looking up {} among {} gives leg {} (backward {})'.format(msg, nm, names, t.indexOfLabel(nm), t.indexOfLabel(nm, backward=True)), 'invariant')
        mon.check(list(t.labels) == names, lambda: '{}: labels {} of legs {}'.format(msg, t.labels, names), 'invariant')
        for leg, d in zip(t.legs, t.shape):
            mon.check(leg.dim == d, lambda: '{}: leg {} has dim {} but the tensor has {}'.format(msg, leg.name, leg.dim, d), 'invariant')
            mon.check(leg.tensor is t, lambda: '{}: leg {} of {} says it belongs to another tensor'.format(msg, leg.name, t), 'invariant')
            mon.check(id(leg) not in seen, lambda: '{}: leg {} is listed twice'.format(msg, leg.name), 'invariant')
            seen.add(id(leg))
            if leg.bond is not None:
                mon.check(leg in leg.bond.legs, lambda: '{}: bond of leg {} does not contain it'.format(msg, leg.name), 'invariant')
                o = leg.anotherSide()
                mon.check(o is not leg and o.bond is leg.bond, lambda: '{}: bond of leg {} is not mutual'.format(msg, leg.name), 'invariant')
                s = leg.bond.sideLeg(t)
                mon.check(len(leg.bond.legs) == 2 and s.bond is leg.bond and any(s is x for x in t.legs),
                          lambda: '{}: the bond of leg {} gives another leg for its own tensor'.format(msg, leg.name), 'invariant')
                mon.check(leg.bond.anotherSide(o) is leg, lambda: '{}: other side of the other side of leg {}'.format(msg, leg.name), 'invariant')
                mon.check(o.dim == leg.dim, lambda: '{}: bond joins dims {} and {}'.format(msg, leg.dim, o.dim), 'invariant')
                if not external_ok or id(o.tensor) in ids:
                    mon.check(id(o.tensor) in ids, lambda: '{}: leg {} is bonded to a tensor outside the network'.format(msg, leg.name), 'invariant')
                    mon.check(any(o is x for x in o.tensor.legs), lambda: '{}: leg {} is bonded to a leg its tensor does not list'.format(msg, leg.name), 'invariant')


def foreign_bonds(rng, mon, tensors, msg):
    """a bond knows which legs and tensors it does not join"""
    bonds = [l.bond for t in tensors for l in t.legs if l.bond is not None]
    if not bonds:
        return
    b = bonds[int(rng.integers(len(bonds)))]
    for t in tensors:
        if not any(l.bond is b for l in t.legs):
            mon.raises((AssertionError, ValueError), lambda: b.sideLeg(t), msg + ': side of a bond at a tensor it does not touch', 'foreign_refused')
        for l in t.legs:
            if l.bond is not b:
                mon.raises((AssertionError, ValueError), lambda: b.anotherSide(l), msg + ': other side of a leg the bond does not join', 'foreign_refused')


def observe(mon, res, labels, msg, dims=None):
    """Read a result tensor through its labels; returns a dense array in that label order."""
    mon.check(sorted(res.labels) == sorted(labels),
              lambda: '{}: result legs {} but free legs are {}'.format(msg, res.labels, labels), 'labels_compared')
    mon.check(len(res.legs) == len(labels), lambda: '{}: leg count'.format(msg), 'labels_compared')
    a = np.array(res.toTensor(list(labels)))
    if dims is not None:
        mon.check(tuple(a.shape) == tuple(dims), lambda: '{}: shape {} expected {}'.format(msg, a.shape, dims), 'shape_compared')
    return a


def random_sequence(rng, n, style='random'):
    """A random valid contraction sequence (result stored in min index)."""
    alive = list(range(n))
    seq = []
    while len(alive) > 1:
        i, j = rng.choice(len(alive), 2, replace=False)
        a, b = alive[int(i)], alive[int(j)]
        seq.append((a, b))
        alive.remove(max(a, b))
    return seq
