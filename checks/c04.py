"""C04  Operations that are not in place leave their inputs alone; copies are independent."""
import numpy as np
import model as M
from harness import Skip

ID = 'C04'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (network or tensor structure, operation list) tuples'


def rand_net(rng, nmin=1, nmax=5, **kw):
    n = int(rng.integers(nmin, nmax + 1))
    s = M.gen_network(rng, n, units=0.1, p_diag=[0.0, 0.4, 1.0][int(rng.integers(3))], p_free=0.35, max_dim=3, max_rank=5,
                      connected=bool(rng.random() < 0.7), extra=int(rng.integers(0, n + 1)), out_cap=1500, **kw)
    return s, M.build(rng, s)


def decorate(rng, ts):
    for i, t in enumerate(ts):
        if rng.random() < 0.5:
            t.degreeOfFreedom = int(rng.integers(1, 9))
        if rng.random() < 0.5:
            t.name = 'name{}'.format(i)


def contraction(rng, mon):
    from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, contractAndCostWithSequence, \
        generateOptimalSequence, generateGreedySequence, makeTensorGraph, contractCost, copyTensorList
    s, ts = rand_net(rng, repeat=0.2)
    decorate(rng, ts)
    n = len(ts)
    labels = s.free_labels()
    before = M.snapshot(ts)
    ids = [id(t) for t in ts]
    ops = [('contractTensorList', lambda: contractTensorList(ts)),
           ('contractWithSequence', lambda: contractWithSequence(ts, seq=M.random_sequence(rng, n))),
           ('bf', lambda: contractWithSequence(ts, bf=True)),
           ('greedy', lambda: contractAndCostWithSequence(ts, greedy=True)[0]),
           ('plan', lambda: (generateOptimalSequence(ts), None)[1]),
           ('plan bf', lambda: (generateOptimalSequence(ts, bf=True, typicalDim=None), None)[1]),
           ('plan greedy', lambda: (generateGreedySequence(ts), None)[1]),
           ('graph', lambda: (makeTensorGraph(ts), None)[1]),
           ('cost', lambda: ([contractCost(ts[i], ts[j]) for i in range(n) for j in range(n) if i != j], None)[1]),
           ('copyTensorList', lambda: (copyTensorList(ts), None)[1]),
           ('copyLike', lambda: (copyTensorList(ts, tensorLikeFlag=True), None)[1])]
    seq = [ops[i] for i in rng.integers(0, len(ops), 5)]
    mon.note(s.describe(), s.sig(), [o[0] for o in seq])
    val = None
    results = []
    for name, f in seq:
        mon.event('op_' + name)
        r = f()
        mon.check([id(t) for t in ts] == ids, 'the list of tensors itself was changed by ' + name, 'list_unchanged')
        M.same_snapshot(mon, before, ts, name)
        M.check_links(mon, ts, name)
        if r is not None:
            v = np.array(r.toTensor(list(labels)), copy=True)
            if val is not None:
                mon.equal(v, val, 'repeating the contraction ({})'.format(name), kind='repeat_compared')
            val = v
            results.append((r, v))
            # the result shares no memory with the inputs
            if r.a is not None and r.a.size and r.a.flags.writeable:
                r.a[...] = -7
                M.same_snapshot(mon, before, ts, 'overwriting the result of ' + name)


def copies(rng, mon):
    s, ts = rand_net(rng, 1, 3, repeat=0.2)
    decorate(rng, ts)
    before = M.snapshot(ts)
    mon.note(s.describe(), s.sig(), [(t.name, t.degreeOfFreedom) for t in ts])
    for t in ts:
        cs = [('copy', t.copy())] + [('copyN', c) for c in t.copyN(2)]
        if t.tensorLikeFlag is False:
            cs.append(('copy of copy', t.copy().copy()))
        for nm, c in cs:
            mon.check(c is not t, nm + ' returned the tensor itself', 'copy')
            mon.check(c.labels == t.labels and tuple(c.shape) == tuple(t.shape) and c.name == t.name and c.degreeOfFreedom == t.degreeOfFreedom
                      and c.typeName() == t.typeName() and np.dtype(c.dtype) == np.dtype(t.dtype) and c.diagonalFlag == t.diagonalFlag,
                      lambda: '{}: {} ({} {}) differs from {} ({} {})'.format(nm, c, c.name, c.dtype, t, t.name, t.dtype), 'copy')
            mon.check(c.a.dtype == t.a.dtype and np.array_equal(c.a, t.a), nm + ': data differs', 'copy')
            mon.check(all(l.bond is None for l in c.legs), nm + ': the copy has bonds', 'copy')
            mon.check(not (set(map(id, c.legs)) & set(map(id, t.legs))), nm + ': legs are shared', 'copy')
            M.check_links(mon, [c], nm)
            c.a[...] = 99
            for l in c.legs:
                l.name = 'renamed' + l.name
            M.same_snapshot(mon, before, ts, 'changing a ' + nm)
        like = t.toTensorLike()
        for nm, k in (('toTensorLike', like), ('its copy', like.copy()), ('again', like.toTensorLike())):
            mon.check(k.a is None and k.tensorLikeFlag and k.labels == t.labels and tuple(k.shape) == tuple(t.shape) and k.name == t.name
                      and k.degreeOfFreedom == t.degreeOfFreedom and k.diagonalFlag == t.diagonalFlag and np.dtype(k.dtype) == np.dtype(t.dtype),
                      lambda: '{}: {} from {}'.format(nm, k, t), 'copy_like')
            M.check_links(mon, [k], nm)
            before_k = M.snapshot([k])
            for other in (k.copy(), k.toTensorLike()):
                mon.check(other is not k and not (set(map(id, k.legs)) & set(map(id, other.legs))), 'a copy of {} is not independent'.format(nm), 'copy_like')
                for l in other.legs:
                    l.name = 'renamed' + l.name
                other.name = 'other'
            M.same_snapshot(mon, before_k, [k], 'changing a copy of ' + nm)
    M.same_snapshot(mon, before, ts, 'copying')


def data_isolation(rng, mon):
    """a tensor owns its data: the caller's arrays and the arrays it hands out are separate"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    from CTL.tensor.leg import Leg
    r = int(rng.integers(0, 4))
    shape = tuple(int(x) for x in rng.integers(1, 4, r))
    kind = M.pick_kind(rng)
    a = M.rdata(rng, shape, kind)
    a = np.array(a)
    orig = a.copy()
    form = int(rng.integers(5))
    labels = ['l{}'.format(i) for i in range(r)]
    own = a
    if rng.random() < 0.3:              # only lent for reading
        a = a.view()
        a.setflags(write=False)
    if form == 0:
        t = Tensor(data=a)
    elif form == 1:
        t = Tensor(data=a, labels=labels)
    elif form == 2:
        t = Tensor(data=a, shape=shape, labels=labels)
    elif form == 3:
        t = Tensor(data=a.reshape(-1), shape=shape, labels=labels)
    else:
        t = Tensor(data=a, legs=[Leg(None, d, l) for d, l in zip(shape, labels)])
    mon.note('dense {} {} {}'.format(shape, kind, form))
    own[...] = 55
    mon.equal(t.toTensor(), orig, 'tensor changed when the array it was made from changed', kind='isolation')
    for nm, f in (('toVector', lambda: t.toVector()), ('toMatrix', lambda: t.toMatrix(rows=t.labels[:1], cols=t.labels[1:]))):
        if nm == 'toMatrix' and r == 0:
            continue
        x = f()
        if x.flags.writeable:
            x[...] = 77
        mon.equal(t.toTensor(), orig, 'writing into the result of {} changed the tensor'.format(nm), kind='isolation')
    d = int(rng.integers(1, 5))
    k = int(rng.integers(1, 4))
    v = np.array(M.rdata(rng, (d,) if rng.random() < 0.5 else (d,) * k, kind))
    labels = ['x', 'y', 'z'][:k]
    want = M.dense_of_diag(v if v.ndim == 1 else np.array([v[(i,) * k] for i in range(d)]), k)
    t = DiagonalTensor(data=v, labels=labels, shape=(d,) * k)
    v[...] = 55
    mon.equal(t.toTensor(), want, 'diagonal tensor changed when the array it was made from changed', kind='isolation')
    x = t.toTensor()
    if x.flags.writeable and k > 1:
        x[...] = 77
        mon.equal(t.toTensor(), want, 'writing into the dense form changed the diagonal tensor', kind='isolation')


def reading(rng, mon):
    """queries leave the tensor as it is"""
    s, ts = rand_net(rng, 1, 2)
    t = ts[0]
    before = M.snapshot(ts)
    labs = t.labels
    ops = [('norm', lambda: t.norm()), ('str', lambda: str(t) + repr(t)), ('labels', lambda: (t.labels, t.shape, t.dim, t.totalSize)),
           ('getLeg', lambda: [t.getLeg(l) for l in labs]), ('index', lambda: [t.indexOfLabel(l, backward=bool(rng.integers(2))) for l in labs + ['nope']]),
           ('complement', lambda: t.complementLegs(t.legs[:1])), ('shapeOf', lambda: [t.shapeOfLabel(l) for l in labs]),
           ('labelIndices', lambda: t.getLabelIndices(labs)), ('copy', lambda: t.copy()), ('toVector', lambda: t.toVector()),
           ('labelInTensor', lambda: t.labelsInTensor(labs[:1])), ('legsByLabel', lambda: t.getLegsByLabel(labs))]
    if t.dim > 0:
        k = int(rng.integers(0, t.dim + 1))
        ops.append(('toMatrix', lambda: t.toMatrix(rows=labs[:k], cols=labs[k:])))
        ops.append(('toMatrixRev', lambda: t.toMatrix(rows=labs[::-1][:k], cols=labs[::-1][k:])))
    seq = [ops[i] for i in rng.integers(0, len(ops), 6)]
    mon.note(s.describe(), s.sig(), [o[0] for o in seq])
    for nm, f in seq:
        f()
        M.same_snapshot(mon, before, ts, nm)
    l = t.labels
    l.append('x') if isinstance(l, list) else None
    M.same_snapshot(mon, before, ts, 'changing the list of labels that was returned')


def copy_list(rng, mon):
    """copying a list of tensors copies the bonds inside it"""
    from CTL.tensor.contract.optimalContract import copyTensorList
    s, ts = rand_net(rng, 2, 6, repeat=0.2)
    decorate(rng, ts)
    n = len(ts)
    sub = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    lst = [ts[i] for i in sub]
    like = bool(rng.random() < 0.3)
    out = bool(rng.random() < 0.4)
    pos = {id(l): (i, p) for i, t in enumerate(lst) for p, l in enumerate(t.legs)}
    before = M.snapshot(ts)
    partner = {}
    for i, t in enumerate(lst):
        for p, l in enumerate(t.legs):
            o = l.anotherSide()
            partner[(i, p)] = None if o is None else (pos.get(id(o)) or o)
    cs = copyTensorList(lst, tensorLikeFlag=like, linkOutgoingBonds=out)
    mon.note(s.describe(), s.sig(), sub, like, out)
    mon.check(len(cs) == len(lst), 'number of copies', 'copy')
    for i, (c, t) in enumerate(zip(cs, lst)):
        mon.check(c.labels == t.labels and tuple(c.shape) == tuple(t.shape) and c.tensorLikeFlag == like and c.name == t.name, 'copy {} of {}'.format(c, t), 'copy')
        if not like:
            mon.check(np.array_equal(c.a, t.a) and c.a.dtype == t.a.dtype, 'data of the copy', 'copy')
        for p, l in enumerate(c.legs):
            mon.check(l.tensor is c, 'owner of a copied leg', 'copy')
            want = partner[(i, p)]
            o = l.anotherSide()
            if want is None:
                mon.check(o is None, 'free leg became bonded', 'copy')
            elif isinstance(want, tuple):
                mon.check(o is cs[want[0]].legs[want[1]], 'bond between copies differs from the original', 'bond_copied')
            elif out:
                mon.check(o is want and want.bond is l.bond, 'outgoing bond was not moved to the copy', 'outgoing')
            else:
                mon.check(o is None, 'the copy is bonded to the outside', 'outgoing')
    if not out:
        M.same_snapshot(mon, before, ts, 'copyTensorList')
    else:
        for i, t in enumerate(lst):
            for p, l in enumerate(t.legs):
                want = partner[(i, p)]
                if want is not None and not isinstance(want, tuple):
                    mon.check(l.bond is None, 'the original kept an outgoing bond that was moved', 'outgoing')


def ftn(rng, mon):
    """contracting with a predefined network leaves the given tensors alone"""
    from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
    s, _ = rand_net(rng, 1, 4)
    ts = M.build(rng, s, link=False)
    names = ['t{}'.format(i) for i in range(s.n)]
    f = FiniteTensorNetwork(names)
    for e in range(len(s.ends)):
        if len(s.ends[e]) == 2:
            (a, p), (b, q) = s.ends[e]
            f.addLink(names[a], s.label[(a, p)], names[b], s.label[(b, q)])
    before = M.snapshot(ts)
    d = dict(zip(names, ts))
    mon.note(s.describe(), s.sig())
    want = s.value()
    for k in range(2):
        r = f.contract(d)
        M.same_snapshot(mon, before, ts, 'FTN contraction')
        mon.check(list(d) == names and all(d[k] is t for k, t in zip(names, ts)), 'the dictionary was changed', 'list_unchanged')
        got = M.observe(mon, r, s.free_labels(), 'FTN')
        mon.equal(got, want, 'FTN value', scale=np.max(s.value(absolute=True)) if want.size else 1, kind='repeat_compared')
        if r.a.flags.writeable:
            r.a[...] = 3
        M.same_snapshot(mon, before, ts, 'overwriting the result')


def traces(rng, mon):
    """traces, decompositions and planning read their tensors only, twice with the same result"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    from CTL.tensor.contract.contractExp import triangleTensorTrace, squareTrace, selfTrace
    from CTL.tensor.contract.optimalContract import contractCost, makeTensorGraph, generateOptimalSequence, generateGreedySequence
    from CTL.tensor.contract.link import makeLink
    from CTL.tensor.tensorFunc import isIsometry, tensorSVDDecomposition
    op = int(rng.integers(6))
    d = [int(x) for x in rng.integers(1, 5, 4)]
    diag = bool(rng.random() < 0.3)

    def one(labels, shape):
        if diag:
            return DiagonalTensor(data=np.array(M.rdata(rng, (shape[0],), M.pick_kind(rng))), labels=labels)
        return Tensor(data=np.array(M.rdata(rng, tuple(shape), M.pick_kind(rng))), labels=labels)
    if op == 0:
        lab = ['1', '2', '3']
        a = one(lab, d[:3])
        b = a if rng.random() < 0.3 else one(lab, d[:3])
        ts, fn = [a] if a is b else [a, b], lambda: triangleTensorTrace(a, b)
    elif op == 1:
        t = one(['u', 'l', 'd', 'r'], [d[0], d[1], d[0], d[1]])
        ts, fn = [t], lambda: squareTrace(t)
    elif op == 2:
        t = one(['x', 'y', 'z', 'w'][:int(rng.integers(1, 5))] if diag else ['x', 'y', 'z', 'w'], d)
        ts, fn = [t], lambda: selfTrace(t)
    else:
        a, b = one(['x', 'y', 'z'], [d[0], d[1], d[2]]), one(['x', 'w', 'z'], [d[0], d[3], d[2]])
        makeLink('x', 'x', a, b)
        if rng.random() < 0.5:
            makeLink('z', 'z', a, b)
        ts = [a, b]
        if op == 3:
            fn = lambda: contractCost(a, b)
        elif op == 4:
            fn = lambda: (generateOptimalSequence(ts, typicalDim=None), generateGreedySequence(ts), makeTensorGraph(ts).optimalContractSequence(bf=True, typicalDim=None))
        else:
            fn = lambda: (isIsometry(a, ['y', 'x']), tensorSVDDecomposition(a, rows=['y'], chi=2)['s'].a)
    decorate(rng, ts)
    before = M.snapshot(ts)
    mon.note(op, d, diag, [str(t) for t in ts])

    def plain(x):
        if hasattr(x, 'a'):
            x = x.a
        return [plain(y) for y in x] if isinstance(x, (list, tuple)) else np.asarray(x).tolist()
    r = plain(fn())
    M.same_snapshot(mon, before, ts, ['triangleTensorTrace', 'squareTrace', 'selfTrace', 'contractCost', 'planning', 'decomposition'][op])
    again = plain(fn())
    M.same_snapshot(mon, before, ts, 'the second call')
    if op == 5:
        r, again = [float(r[0])] + r[1], [float(again[0])] + again[1]
    if op in (3, 4):
        mon.check(again == r, lambda: 'the second call gives {} instead of {}'.format(again, r), kind='repeat_compared')
    else:
        mon.equal(np.array(again), np.array(r), 'the second call', kind='repeat_compared')


def arguments(rng, mon):
    """lists and arrays given as arguments stay as they are, lists returned belong to the caller"""
    from CTL.tensor.contract.optimalContract import copyTensorList, contractWithSequence, contractAndCostWithSequence, generateOptimalSequence, contractCost
    from CTL.tensor.contract.contract import contractTwoTensors, shareBonds, merge
    from CTL.tensor.contract.link import makeLink
    from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
    s, ts = rand_net(rng, 1, 4)
    t = ts[int(rng.integers(len(ts)))]
    n = t.dim
    ids = [t.legs[i] for i in rng.permutation(n)]
    labs = [l.name for l in ids]
    k = int(rng.integers(0, n + 1))
    op = int(rng.integers(17))
    args, back = [], None
    before = M.snapshot(ts)
    inplace = False

    def give(x):
        args.append((x, x.copy() if isinstance(x, np.ndarray) else list(x)))
        return x
    if op == 0:                                 # some of the bonds of a pair
        pairs = [(x, y) for x in ts for y in ts if x is not y and len(shareBonds(x, y)) > 0]
        if not pairs:
            raise Skip()
        x, y = pairs[int(rng.integers(len(pairs)))]
        x, y = copyTensorList([x, y])
        b = shareBonds(x, y)
        b = give([b[i] for i in rng.permutation(len(b))[:int(rng.integers(1, len(b) + 1))]])
        contractTwoTensors(x, y, bonds=b)
    elif op == 1 and n and not t.diagonalFlag:
        how = bool(rng.integers(2))
        t.toMatrix(rows=give((ids if how else labs)[:k]), cols=give((ids if how else labs)[k:]))
    elif op == 2:
        back = t.complementLegs(give(ids[:k]))
        mon.check(len(back) == n - k and all(any(x is l for l in ids[k:]) for x in back), 'the other legs', 'answers')
    elif op == 3 and n:
        inplace = True
        how = int(rng.integers(4))
        if how == 0:
            t.moveLegsToFront(give(ids[:k]))
        elif how == 1:
            t.reArrange(give(labs))
        elif how == 2:
            t.moveLabelsToFront(give(labs[:k]))
        else:
            t.toTensor(give(labs))
    elif op == 4 and n and not t.diagonalFlag:
        c = t.copy()
        c.outProduct(give([c.getLeg(x) for x in labs[:max(k, 1)]] if rng.random() < 0.5 else labs[:max(k, 1)]), 'new')
    elif op == 5 and n:
        c = t.copy()
        c.renameLabels(give(labs[:k]), give(['n{}'.format(i) for i in range(k)]))
    elif op == 6:
        back = [t.getLegsByLabel, t.getLabelIndices, t.shapeOfLabels][int(rng.integers(3))](give(labs[:k]))
    elif op == 7:
        back = t.getLegIndices(give(ids[:k]))
    elif op == 8:
        t.labelsInTensor(give(labs + ['absent']))
        t.shapeOfIndices(give([int(x) for x in rng.permutation(n)]))
    elif op == 9 and n:
        c = t.copy()
        w = give(np.array(M.rdata(rng, (c.getLeg(labs[0]).dim,), M.pick_kind(rng))))
        c.sumOutLegByLabel(labs[0], weights=w)
    elif op == 10 and n:
        c = t.copy()
        c.sumOutLegByLabel(give(labs[:k]))
    elif op == 11 and n:
        x, y = t.copy(), t.copy()
        back = makeLink(give(labs[:k] if rng.random() < 0.5 else [x.getLeg(l) for l in labs[:k]]), give(labs[:k]), x, y)
    elif op == 12 and n > 1 and not t.diagonalFlag:
        k = min(max(k, 1), n - 1)
        tensorSVDDecomposition(t.copy(), rows=give(labs[:k]), cols=give(labs[k:]))
        isIsometry(t.copy(), give(labs[:k]))
    elif op == 13:
        seq, have = [], list(range(len(ts)))
        while len(have) > 1:
            x, y = (int(z) for z in rng.choice(have, 2, replace=False))
            seq.append((x, y) if rng.random() < 0.7 else [x, y])
            have.remove(max(x, y))
        deep = [tuple(z) for z in seq]
        fn = [contractWithSequence, contractAndCostWithSequence][int(rng.integers(2))]
        fn(give(list(ts)), seq=give(seq), outProductWarning=False)
        mon.check([tuple(z) for z in seq] == deep, 'the given plan was rewritten', 'arguments')
    elif op == 14:
        back = generateOptimalSequence(give(list(ts)), typicalDim=[None, 10][int(rng.integers(2))])
        if isinstance(back, list):
            keep = list(back)
            back.reverse()
            back.append((9, 9))
            mon.check(list(generateOptimalSequence(list(ts), typicalDim=None) or []) is not back, 'a plan is handed out twice', 'answers')
            back[:] = keep
    elif op == 15:
        back = t.copyN(int(rng.integers(1, 4)))
    elif op == 16 and not t.diagonalFlag:
        x, y = t.copy(), t.copy()
        if n < 2:
            raise Skip()
        makeLink(labs[:2], labs[:2], x, y)
        merge(x, y, bondName=give(['p', 'q']))
    else:
        raise Skip()
    mon.note('arguments', op, k, s.sig())
    for x, y in args:
        if isinstance(y, np.ndarray):
            mon.check(x.dtype == y.dtype and np.array_equal(x, y), lambda: 'operation {}: the given array changed from {} to {}'.format(op, y, x), 'arguments')
        else:
            mon.check(len(x) == len(y) and all(p is q for p, q in zip(x, y)), lambda: 'operation {}: the given list changed from {} to {}'.format(op, y, x), 'arguments')
    if not inplace:
        M.same_snapshot(mon, before, ts, 'operation {}'.format(op))
    before = M.snapshot(ts)
    for x, _ in args:
        if isinstance(x, list):
            del x[:]
    if isinstance(back, list):
        del back[:]
    M.same_snapshot(mon, before, ts, 'emptying the lists given to and returned by operation {}'.format(op))
    M.check_links(mon, ts, 'after operation {}'.format(op))


WORKLOADS = [
    ('arguments', arguments, 3000, 30000),
    ('traces', traces, 2000, 20000),
    ('contraction', contraction, 2500, 40000),
    ('copies', copies, 2500, 30000),
    ('data_isolation', data_isolation, 3000, 30000),
    ('reading', reading, 2500, 30000),
    ('copy_list', copy_list, 3000, 40000),
    ('ftn', ftn, 1500, 20000),
]
REQUIRED_OBS = ['arguments.arguments', 'arguments.answers', 'traces.repeat_compared', 'contraction.repeat_compared', 'copy_list.bond_copied', 'copy_list.outgoing', 'data_isolation.isolation']
