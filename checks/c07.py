"""C07  Creating a tensor: any consistent description gives exactly that tensor, any contradictory one is refused."""
import numpy as np
import model as M

ID = 'C07'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (which of legs/shape/labels/data are given, their values, contradiction injected, kind, dtype) tuples'


def mklegs(shape, labels):
    from CTL.tensor.leg import Leg
    return [Leg(None, d, l) for d, l in zip(shape, labels)]


def mkdims(rng, diag, rmax=4):
    r = int(rng.integers(0, rmax + 1))
    if diag:
        return (int(rng.integers(1, 5)),) * r
    return tuple(int(x) for x in rng.integers(1, 5, r))


def reshaped(rng, a):
    """the same numbers, in C order, in an array of another shape"""
    divs = [d for d in range(1, a.size + 1) if a.size % d == 0]
    d = divs[int(rng.integers(len(divs)))]
    return a.reshape(-1) if rng.random() < 0.3 else a.reshape((d, -1))


def describe(t):
    return t.labels, tuple(t.shape), t.dtype


def consistent(rng, mon):
    from CTL.tensor.tensor import Tensor, TensorLike
    from CTL.tensor.diagonalTensor import DiagonalTensor
    diag = bool(rng.random() < 0.45)
    like = bool(rng.random() < 0.25)
    shape = mkdims(rng, diag)
    r = len(shape)
    labels = [M.NAMES[i] for i in rng.permutation(len(M.NAMES))[:r]]
    kind = M.pick_kind(rng)
    useLegs, useShape, useLabels, useData = [bool(x) for x in rng.integers(0, 2, 4)]
    if not (useLegs or useShape or useData):
        useShape = True
    if like and not (useLegs or useShape):
        useShape = True
    full = np.array(M.rdata(rng, shape, kind))
    data = None
    form = 0
    if useData:
        if diag and r and useLabels | useShape | useLegs and rng.random() < 0.6:
            form = 1                                     # the diagonal itself
            data = np.array(M.rdata(rng, shape[:1], kind))
        elif (useShape or useLegs) and rng.random() < 0.4 and not (diag and r > 1 and full.size == shape[0]):
            form = 2                                     # another shape of the same size
            data = reshaped(rng, full) if not (diag and r) else full.reshape((1, -1) if rng.random() < 0.5 or r == 1 or shape[0] == 1 else -1)
        else:
            data = full
        # the same numbers in another memory layout
        lay = int(rng.integers(4))
        if lay == 1 and data.ndim:
            data = np.asfortranarray(data)
        elif lay == 2 and data.ndim:
            big = np.zeros(tuple(2 * x for x in data.shape), dtype=data.dtype)
            data, old = big[tuple(slice(None, None, 2) for _ in data.shape)], data
            data[...] = old
        if lay and data.ndim:
            mon.event('layout')
        if rng.random() < 0.25:
            data.setflags(write=False)
    kw = {}
    legs = mklegs(shape, labels) if useLegs else None
    if useLegs:
        kw['legs'] = legs
    intshape = False
    if useShape:
        kw['shape'] = shape
        if diag and r and (useLegs or useLabels) and form != 2 and rng.random() < 0.3:
            kw['shape'] = shape[0]
            intshape = True
    if useLabels:
        kw['labels'] = list(labels) if rng.random() < 0.7 else tuple(labels)
    dtype = None
    if useData:
        kw['data'] = data
    if rng.random() < 0.4:
        dtype = [np.float64, np.complex128, np.float32, np.complex64, np.longdouble][int(rng.integers(5))]
        if not (useData is False and dtype is None):
            kw['dtype'] = dtype
    dof, name = (int(rng.integers(1, 5)) if rng.random() < 0.5 else None), ('nm' if rng.random() < 0.5 else None)
    if dof is not None:
        kw['degreeOfFreedom'] = dof
    if name is not None:
        kw['name'] = name
    if like:
        kw['tensorLikeFlag'] = True
    cls = DiagonalTensor if diag else Tensor
    what = '{}({}{})'.format(cls.__name__, ', '.join('{}={}'.format(k, v if k != 'data' else v.shape) for k, v in sorted(kw.items()) if k != 'legs'), ' legs' if useLegs else '')
    # a single 1-d data array without legs, shape or labels describes a rank-1 tensor
    if like and rng.random() < 0.4:
        t = TensorLike(diagonalFlag=diag, **{k: v for k, v in kw.items() if k not in ('tensorLikeFlag', 'dtype')}) if not diag and dtype is None else cls(**kw)
    else:
        t = cls(**kw)
    mon.note(what, kind)
    mon.trace(what)
    wantlabels = labels if (useLegs or useLabels) else list('abcdefghijklmnop'[:r])
    mon.check(list(t.labels) == wantlabels, lambda: '{}: labels {} expected {}'.format(what, t.labels, wantlabels), 'labels')
    mon.check(tuple(t.shape) == shape and t.dim == r, lambda: '{}: shape {} expected {}'.format(what, t.shape, shape), 'shape')
    mon.check(t.degreeOfFreedom == dof and t.name == name, what + ': metadata', 'meta')
    mon.check(bool(t.tensorLikeFlag) == like and bool(t.diagonalFlag) == diag, what + ': kind', 'meta')
    mon.check(t.typeName() == ('Diagonal' if diag else '') + 'Tensor' + ('Like' if like else ''), what + ': typeName ' + t.typeName(), 'meta')
    mon.check(all(l.bond is None for l in t.legs), what + ': new legs are free', 'legs')
    if useLegs:
        mon.check(len(t.legs) == r and all(x is y for x, y in zip(t.legs, legs)), what + ': the given legs are not used', 'legs')
    mon.check(all(l.tensor is t for l in t.legs), what + ': legs do not belong to the tensor', 'legs')
    M.check_links(mon, [t], what)
    wantdt = data.dtype if useData else np.dtype(dtype or np.float64)
    mon.check(np.dtype(t.dtype) == np.dtype(wantdt), lambda: '{}: dtype {} expected {}'.format(what, t.dtype, wantdt), 'dtype')
    mon.check(bool(t.isFloatTensor()) == (np.dtype(wantdt).kind == 'f'), what + ': isFloatTensor', 'dtype')
    # what was given stays the caller's
    if rng.random() < 0.4:
        before = (list(t.labels), tuple(t.shape), list(t.legs), None if t.a is None else np.array(t.a))
        if useLegs:
            del legs[int(rng.integers(2)):]
        if isinstance(kw.get('labels'), list):
            kw['labels'][:] = ['changed']
        held = useData and not data.flags.writeable     # only lent for reading: its owner may change it
        if held:
            mon.event('read_only')
            data.setflags(write=True)
        if useData:
            saved = data.copy()
            data[...] = 77
        now = (list(t.labels), tuple(t.shape), list(t.legs), t.a)
        mon.check(before[:3] == now[:3] and (like or np.array_equal(before[3], now[3], equal_nan=True)),
                  lambda: '{}: changing the lists or the data it was made from changed the tensor: {} to {}'.format(what, before, now), 'given')
        if useData:
            data[...] = saved
    if like:
        mon.check(t.a is None, what + ': a tensor-like object holds data', 'data')
        return
    mon.check(t.a.dtype == np.dtype(wantdt), lambda: '{}: data of type {}, expected {}'.format(what, t.a.dtype, wantdt), 'dtype')
    if useData:
        if diag:
            v = data if form == 1 else np.array([full[(i,) * r] for i in range(shape[0])]) if r else full
            want = M.dense_of_diag(v.astype(data.dtype), r)
        else:
            want = full
        mon.equal(t.toTensor(), want, what + ': data', kind='data')
        mon.check(t.a.dtype == data.dtype, lambda: '{}: data type {} of {}'.format(what, t.a.dtype, data.dtype), 'dtype')
    else:
        if diag:
            mon.equal(t.toTensor(), M.dense_of_diag(np.ones(shape[:1]), r), what + ': default data is the identity', kind='data')
        else:
            v = t.toTensor()
            c = np.iscomplexobj(v)
            mon.check(c == (np.dtype(wantdt).kind == 'c'), lambda: '{}: random data is {}'.format(what, v.dtype), 'dtype')
            for part in ((v.real, v.imag) if c else (v,)):
                mon.check(bool(np.all((part >= 0) & (part <= 1))), what + ': random data outside [0,1]', 'data')
                if part.size > 3:
                    mon.check(len(set(part.reshape(-1).tolist())) > 1, what + ': random data is constant', 'data')


def contradictory(rng, mon):
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    diag = bool(rng.random() < 0.4)
    r = int(rng.integers(1, 4))
    shape = (int(rng.integers(2, 5)),) * r if diag else tuple(int(x) for x in rng.integers(2, 5, r))
    labels = ['a', 'b', 'c', 'd', 'e'][:r]
    cls = DiagonalTensor if diag else Tensor
    like = bool(rng.random() < 0.2)
    k = int(rng.integers(13))
    full = rng.standard_normal(shape)
    extra = {'tensorLikeFlag': True} if like else {}
    bad = tuple(list(shape[:-1]) + [shape[-1] + 1])
    if k == 0:
        kw = dict(legs=mklegs(shape, labels), labels=labels[:-1] + ['zz'])
    elif k == 1:
        kw = dict(legs=mklegs(shape, labels), labels=labels + ['zz'])
    elif k == 2:
        kw = dict(legs=mklegs(shape, labels), shape=bad)
    elif k == 3:
        kw = dict(legs=mklegs(shape, labels), shape=shape + shape[:1])
    elif k == 4:
        kw = dict(legs=mklegs(shape, labels), data=rng.standard_normal(tuple(x + 1 for x in shape) + (7,)))
    elif k == 5:
        kw = dict(shape=shape, labels=labels + ['zz'])
    elif k == 6:
        kw = dict(shape=shape, data=rng.standard_normal(tuple(x + 1 for x in shape) + (7,)))
    elif k == 7:
        kw = dict(data=full, labels=labels + ['zz'])
        if diag and r == 1:
            kw = dict(data=rng.standard_normal((3, 4)))
    elif k == 9:            # the right labels in another order, or as a tuple with one wrong
        perm = labels[1:] + labels[:1]
        if r == 1:
            perm = ['zz']
        kw = dict(legs=mklegs(shape, labels), labels=perm if rng.random() < 0.6 else labels[:-1])
        if rng.random() < 0.4:
            kw['data'] = full
    elif k == 10:           # the right dimensions in another order, or one dimension too few
        perm = shape[1:] + shape[:1]
        kw = dict(legs=mklegs(shape, labels), shape=perm if perm != shape else shape[:-1])
        if rng.random() < 0.3:
            kw['shape'] = shape[:-1]
        if rng.random() < 0.4:
            kw['labels'] = labels
    elif k == 11:           # scalar data for a tensor with entries
        kw = dict(shape=shape, data=np.array(1.5))
        if rng.random() < 0.3:
            kw = dict(legs=mklegs(shape, labels), data=np.array(1.5))
    elif k == 12:
        if diag:            # a size alone says nothing about the number of legs; no legs, but a vector of values
            kw = [dict(shape=shape[0]), dict(data=rng.standard_normal(shape[:1]), labels=[]), dict(shape=(), data=rng.standard_normal(shape[:1])),
                  dict(shape=shape, data=rng.standard_normal((shape[0] + 1,))), dict(data=full, labels=labels + ['zz']),
                  dict(shape=shape[0] + 1, data=rng.standard_normal(shape[:1]), labels=labels)][int(rng.integers(6))]
            if r == 1 and kw.get('labels') == labels + ['zz']:
                kw = dict(shape=shape[0])
        else:
            kw = [dict(shape=(), data=full), dict(data=full, labels=[]), dict(shape=shape, labels=[]), dict(legs=mklegs(shape, labels), labels=[]),
                  dict(legs=mklegs(shape, labels), shape=())][int(rng.integers(5))]
    else:
        if diag:
            kw = dict(shape=(2, 3)) if rng.random() < 0.5 else dict(legs=mklegs((2, 3), ['a', 'b']))
        else:
            kw = dict(labels=None) if not like else dict(degreeOfFreedom=2)
    kw.update(extra)
    what = '{} case {} {} like={}'.format(cls.__name__, k, shape, like)
    mon.note(what, sorted(kw))
    mon.raises(ValueError, lambda: cls(**kw), what)


def leg_reuse(rng, mon):
    """re-using legs that are bonded keeps their bonds, with and without data, dense and diagonal, before and after"""
    from CTL.tensor.tensor import Tensor, TensorLike
    from CTL.tensor.diagonalTensor import DiagonalTensor
    from CTL.tensor.contract.link import makeLink

    def DiagonalTensorLike(**kw):
        return DiagonalTensor(tensorLikeFlag=True, **kw)
    d = int(rng.integers(1, 5))
    diag, like, newdiag, newlike = (bool(x) for x in rng.random(4) < [0.3, 0.3, 0.6, 0.35])
    newdiag = newdiag and diag
    m = d if diag else 2
    shape = (d, m, d)
    a = (DiagonalTensorLike if like else DiagonalTensor)(shape=shape, labels=['x', 'y', 'z']) if diag else (TensorLike if like else Tensor)(shape=shape, labels=['x', 'y', 'z'])
    b = (TensorLike if newlike else Tensor)(shape=(d, 3), labels=['p', 'q'])
    second = None if newlike else b.a.copy()
    makeLink('x', 'p', a, b)
    if rng.random() < 0.3:
        makeLink('z', 'z', a, Tensor(shape=(d, 2), labels=['z', 'out']))
    other = a.legs[2].anotherSide()
    order = [int(i) for i in rng.permutation(3)]
    legs = [a.legs[i] for i in order]
    bonds = [l.bond for l in legs]
    given = [list, tuple][int(rng.integers(2))](legs)
    kw = {}
    if rng.random() < 0.3:
        kw['labels'] = [l.name for l in legs]
    if rng.random() < 0.3:
        kw['shape'] = tuple(l.dim for l in legs)
    if newdiag:
        vec = rng.standard_normal(d)
        data = M.dense_of_diag(vec, 3)
        c = DiagonalTensorLike(legs=given, **kw) if newlike else DiagonalTensor(data=vec, legs=given, **kw)
    else:
        data = rng.standard_normal(shape)
        c = TensorLike(legs=given, **kw) if newlike else Tensor(data=np.transpose(data, order), legs=given, **kw)
    mon.note('reuse {} {}'.format(d, order), diag, like, newdiag, newlike, sorted(kw), type(given).__name__)
    mon.check(len(c.legs) == 3 and all(x is y for x, y in zip(c.legs, legs)), 'the given legs were not taken', 'legs')
    mon.check(all(l.tensor is c for l in legs), 'legs still belong to the old tensor', 'legs')
    mon.check(list(c.labels) == [l.name for l in legs] and tuple(c.shape) == tuple(shape[i] for i in order), lambda: 'labels {} shape {}'.format(c.labels, c.shape), 'legs')
    mon.check(all(l.bond is x for l, x in zip(legs, bonds)), 'the bonds of the legs changed', 'legs')
    mon.check(b.legs[0].anotherSide() is legs[order.index(0)], 'bond lost', 'legs')
    mon.check(bool(c.diagonalFlag) == newdiag and bool(c.tensorLikeFlag) == newlike and (c.a is None) == newlike, 'kind of the tensor', 'legs')
    if newlike:
        r = c @ b
        mon.check(r.tensorLikeFlag and sorted(r.labels) == ['q', 'y', 'z'], lambda: 'contraction of the rebuilt tensor: {}'.format(r), 'legs')
    else:
        mon.equal(c.copy().toTensor(['x', 'y', 'z']), data, 'data')
        r = c @ b
        mon.equal(r.copy().toTensor(['y', 'z', 'q']), np.einsum('xyz,xq->yzq', data, second), 'contraction of the rebuilt tensor', scale=10 * d)
    mon.check(legs[order.index(2)].anotherSide() is other and legs[order.index(2)].tensor is r, 'an outer bond changed', 'legs')


def factories(rng, mon):
    from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor, makeSquareOutTensor
    k = int(rng.integers(3))
    if k == 0:
        a = rng.standard_normal(tuple(int(x) for x in rng.integers(1, 4, 3)))
        t, labels = makeTriangleTensor(a), ['1', '2', '3']
    elif k == 1:
        a = rng.standard_normal(tuple(int(x) for x in rng.integers(1, 4, 4)))
        t, labels = makeSquareTensor(a), ['u', 'l', 'd', 'r']
    else:
        a = rng.standard_normal(tuple(int(x) for x in rng.integers(1, 4, 3)))
        loc = ['ul', 'ur', 'dl', 'dr'][int(rng.integers(4))]
        t = makeSquareOutTensor(a, loc)
        labels = [{'u': 'd', 'd': 'u'}[loc[0]], {'l': 'r', 'r': 'l'}[loc[1]], 'o']
        mon.raises(AssertionError, lambda: makeSquareOutTensor(a, 'xx'), 'unknown corner')
    mon.note('factory {} {}'.format(k, a.shape))
    mon.check(t.labels == labels, lambda: 'labels {} expected {}'.format(t.labels, labels), 'labels')
    mon.equal(t.toTensor(), a, 'data')
    mon.raises(AssertionError, lambda: (makeTriangleTensor if k != 1 else makeSquareTensor)(np.zeros((2, 2))), 'wrong rank')


def too_many(rng, mon):
    from CTL.tensor.tensor import Tensor
    n = int(rng.integers(25, 30))
    mon.note('rank {}'.format(n))
    if n <= 26:
        t = Tensor(shape=(1,) * n)
        mon.check(t.labels == list('abcdefghijklmnopqrstuvwxyz'[:n]), 'automatic labels', 'labels')
    else:
        mon.raises(AssertionError, lambda: Tensor(shape=(1,) * n), 'more automatic labels than letters')


def labels_only(rng, mon):
    """a tensor-like object may leave its dimensions open"""
    from CTL.tensor.tensor import Tensor, TensorLike
    r = int(rng.integers(1, 6))
    labels = [M.NAMES[i] for i in rng.permutation(len(M.NAMES))[:r]]
    dof = int(rng.integers(1, 4))
    mon.note('labels only {}'.format(labels), dof)
    t = TensorLike(labels=labels, degreeOfFreedom=dof) if rng.random() < 0.5 else Tensor(labels=labels, tensorLikeFlag=True, degreeOfFreedom=dof)
    mon.check(list(t.labels) == labels and tuple(t.shape) == (None,) * r, lambda: 'tensor-like object {} of shape {}'.format(t.labels, t.shape), 'labels')
    mon.check(t.tensorLikeFlag and t.degreeOfFreedom == dof and t.a is None, 'open tensor-like object', 'meta')
    M.check_links(mon, [t], 'open tensor-like object')
    mon.raises(ValueError, lambda: Tensor(labels=labels), 'labels alone do not describe a tensor with data')


WORKLOADS = [
    ('consistent', consistent, 8000, 120000),
    ('contradictory', contradictory, 3000, 30000),
    ('leg_reuse', leg_reuse, 500, 5000),
    ('factories', factories, 800, 8000),
    ('labels_only', labels_only, 200, 2000),
    ('too_many', too_many, 40, 200),
]
REQUIRED_OBS = ['consistent.layout', 'consistent.given', 'consistent.data', 'consistent.legs', 'contradictory.rejection_observed']
