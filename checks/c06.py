"""C06  A tensor behaves as an array with named axes under every rearranging, reshaping, reducing or renaming operation."""
import warnings
import numpy as np
import model as M

ID = 'C06'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (shape, labels, dtype, operation sequence) tuples'


class Named:
    """dense array with one unique id per axis, plus a (possibly repeated) name per axis"""

    def __init__(self, a, names):
        self.a, self.names = np.array(a), list(names)

    def order(self, idx):
        rest = [i for i in range(self.a.ndim) if i not in idx]
        per = list(idx) + rest
        self.a = np.transpose(self.a, per)
        self.names = [self.names[i] for i in per]

    def first(self, name, backward=False):
        idx = [i for i, n in enumerate(self.names) if n == name]
        return idx[-1 if backward else 0] if idx else -1


def make(rng, mon, maxr=5, dup=False, diag=None):
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    r = int(rng.integers(0, maxr + 1))
    size = int(rng.integers(14)) if maxr >= 5 else 2      # 0: many legs, 1: long ones
    if size == 0:
        r = int(rng.integers(maxr + 1, 10))
    elif size == 1:
        r = int(rng.integers(1, 4))
    kind = M.pick_kind(rng)
    names = [M.NAMES[i] for i in (rng.integers(0, 3, r) if dup else rng.permutation(len(M.NAMES))[:r])]
    if diag is None:
        diag = rng.random() < 0.3
    unit = 1
    if rng.random() < 0.12:             # very large or very small entries; large integers
        unit = 2 ** int(rng.integers(10, 45)) if kind == 'int' else 10.0 ** int(rng.choice([-140, -30, -14, -9, -5, 5, 9, 13, 30, 140]))
        mon.event('units')
    mon.unit = unit
    if diag:
        d = int(rng.integers(1, 3 if size == 0 else [0, 300, 30, 12][r] if size == 1 else 4))
        v = np.array(M.rdata(rng, (d,) if r else (), kind)) * unit
        t = DiagonalTensor(data=v, labels=list(names), shape=(d,) * r) if r else DiagonalTensor(data=v, shape=())
        return t, Named(M.dense_of_diag(v, r), names), kind
    shape = tuple(int(x) for x in rng.integers(1, 3 if size == 0 else [0, 2000, 80, 24][r] if size == 1 else 5, r))
    a = np.array(M.rdata(rng, shape, kind)) * unit
    return Tensor(data=a, labels=list(names)), Named(a, names), kind


def compare(mon, t, m, what):
    mon.check(list(t.labels) == m.names, lambda: '{}: labels {} expected {}'.format(what, t.labels, m.names), 'labels_compared')
    mon.check(tuple(t.shape) == m.a.shape and t.dim == m.a.ndim, lambda: '{}: shape {} expected {}'.format(what, t.shape, m.a.shape), 'shape_compared')
    mon.check(t.totalSize == m.a.size, lambda: '{}: totalSize {} expected {}'.format(what, t.totalSize, m.a.size), 'shape_compared')
    mon.equal(t.toTensor(), m.a, what, kind='value_compared')
    if not t.tensorLikeFlag:
        mon.equal(t.norm(), np.linalg.norm(m.a), what + ': norm', kind='norm_compared')
    M.check_links(mon, [t], what)


def sequence(rng, mon, dup=False):
    from CTL.tensor.leg import Leg
    t, m, kind = make(rng, mon, dup=dup)
    hist = ['{}{}'.format('D' if t.diagonalFlag else 'T', m.a.shape), kind, str(m.names)]
    compare(mon, t, m, 'new tensor')
    for _ in range(int(rng.integers(2, 9))):
        n = m.a.ndim
        op = int(rng.integers(12))
        if op == 11:                            # the entries are written to
            if not isinstance(t.a, np.ndarray) or not t.a.flags.writeable or t.a.ndim == 0:
                continue
            how = int(rng.integers(3))
            if how == 0:
                i = tuple(int(rng.integers(k)) for k in t.a.shape)
                t.a[i] = 2 * mon.unit
                if t.diagonalFlag:
                    m.a[i * n] = 2 * mon.unit
                else:
                    m.a[i] = 2 * mon.unit
            elif how == 1:
                t.a[...] = t.a * 2
                m.a = m.a * 2
            else:
                t.a = t.a * 3
                m.a = m.a * 3
            d = 'write{}'.format(how)
        elif op == 0 and n:                       # move some labels to the front
            k = int(rng.integers(0, n + 1))
            idx = [int(i) for i in rng.permutation(n)[:k]]
            labs = [m.names[i] for i in idx]
            if dup:                             # repeated names are taken in order of appearance
                seen, idx = {}, []
                for l in labs:
                    c = [i for i, x in enumerate(m.names) if x == l][seen.get(l, 0)]
                    seen[l] = seen.get(l, 0) + 1
                    idx.append(c)
            t.moveLabelsToFront(labs)
            m.order(idx)
            d = 'front{}'.format(labs)
        elif op == 1 and n:
            idx = [int(i) for i in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
            t.moveLegsToFront([t.legs[i] for i in idx])
            m.order(idx)
            d = 'legsfront{}'.format(idx)
        elif op == 2:
            per = [int(i) for i in rng.permutation(n)]
            labs = [m.names[i] for i in per]
            if dup:
                seen, per = {}, []
                for l in labs:
                    per.append([i for i, x in enumerate(m.names) if x == l][seen.get(l, 0)])
                    seen[l] = seen.get(l, 0) + 1
            if rng.random() < 0.5:
                t.reArrange(labs)
            else:
                mon.equal(t.toTensor(labs), np.transpose(m.a, per) if n else m.a, 'toTensor({})'.format(labs))
            m.order(per)
            d = 'arrange{}'.format(labs)
        elif op == 3 and n:                     # rename
            old = m.names[int(rng.integers(n))]
            new = (M.NAMES[int(rng.integers(3))] if dup else 'n{}'.format(int(rng.integers(10 ** 6))))
            t.renameLabel(old, new)
            m.names[m.first(old)] = new
            d = 'rename{}{}'.format(old, new)
        elif op == 4 and n:                     # sum out
            back = bool(rng.integers(2))
            lab = m.names[int(rng.integers(n))]
            i = m.first(lab, back)
            w = None
            if rng.random() < 0.6:
                w = M.rdata(rng, (m.a.shape[i],), 'complex' if rng.random() < 0.3 else 'real')
            kw = {} if w is None and rng.random() < 0.5 else {'weights': w}
            if rng.random() < 0.4:
                t.sumOutLeg(t.legs[i], **kw)
            else:
                if back or rng.random() < 0.5:
                    kw['backward'] = back
                t.sumOutLegByLabel(lab, **kw)
            m.a = np.tensordot(m.a, np.ones(m.a.shape[i]) if w is None else w, ([i], [0]))
            m.names.pop(i)
            d = 'sum{}{}{}'.format(lab, back, w is not None)
        elif op == 5 and n and not t.diagonalFlag and not dup:
            idx = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
            labs = [m.names[i] for i in idx]
            new = 'o{}'.format(int(rng.integers(10 ** 6)))
            leg = t.outProduct(list(labs), new) if rng.random() < 0.5 else t.outProduct([t.legs[i] for i in idx], new)
            m.order(idx)
            k = len(idx)
            m.a = m.a.reshape((-1,) + m.a.shape[k:])
            m.names = [new] + m.names[k:]
            mon.check(leg is t.legs[0] and leg.dim == m.a.shape[0], 'outProduct returns the combined leg', 'out')
            d = 'out{}'.format(labs)
        elif op == 6:
            if any('-' in x for x in m.names):
                mon.raises(AssertionError, lambda: t.copy().addTensorTag('T1'), 'tagging a leg whose name contains the separator')
                continue
            tag = ['T1', 'a', 'T_1'][int(rng.integers(3))]
            t.addTensorTag(tag)
            mon.check(t.labels == [tag + '-' + x for x in m.names], lambda: 'tagged labels {}'.format(t.labels), 'tag')
            if n and not dup and rng.random() < 0.3:        # a name with the separator in it, given while tagged
                i = int(rng.integers(n))
                new = 'in-n{}'.format(int(rng.integers(10 ** 6)))
                t.renameLabel(tag + '-' + m.names[i], tag + '-' + new)
                m.names[i] = new
            t.removeTensorTag()
            d = 'tag'
        elif op == 7 and n:                     # sum a list of labels, one common weight vector for all
            if dup or rng.random() < 0.4:       # one after the other, from the side asked for
                back = bool(rng.integers(2))
                labs = [m.names[i] for i in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
                mm = Named(m.a, list(m.names))
                for l in labs:
                    i = mm.first(l, back)
                    mm.a = mm.a.sum(axis=i)
                    mm.names.pop(i)
                t.sumOutLegByLabel(list(labs), backward=back)
                m.a, m.names = mm.a, mm.names
                hist.append('sumlist{}{}'.format(labs, back))
                mon.event('sum_list')
                compare(mon, t, m, 'after ' + ' '.join(hist))
                continue
            dims = {}
            for i, x in enumerate(m.a.shape):
                dims.setdefault(x, []).append(i)
            x = list(dims)[int(rng.integers(len(dims)))]
            idx = dims[x][:2]
            w = M.rdata(rng, (x,), 'real') if rng.random() < 0.6 else None
            t.sumOutLegByLabel([m.names[i] for i in idx], weights=w)
            labs = [m.names[i] for i in idx]
            for i in sorted(idx, reverse=True):
                m.a = np.tensordot(m.a, np.ones(x) if w is None else w, ([i], [0]))
                m.names.pop(i)
            d = 'sumlist{}{}'.format(labs, w is not None)
        elif op == 8:                           # unknown labels: warned about, nothing happens
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                f = int(rng.integers(2))
                if f == 0:
                    t.renameLabel('absent', 'other')
                else:
                    t.sumOutLegByLabel('absent')
            mon.check(any(issubclass(x.category, RuntimeWarning) for x in ws), 'no warning for an unknown label', 'unknown_label')
            d = 'unknown{}'.format(f)
        elif op == 9:                           # refused requests leave everything as it was
            mon.raises((ValueError, AssertionError), lambda: t.moveLabelsToFront(['absent']), 'moving an unknown label')
            bad = [m.names[i] for i in rng.permutation(n)[:2]] + ['absent']
            mon.raises((ValueError, AssertionError), lambda: t.moveLabelsToFront(bad), 'moving known and unknown labels')
            mon.raises(Exception, lambda: t.reArrange(bad), 'rearranging by known and unknown labels')
            mon.raises(Exception, lambda: t.outProduct(bad, 'new'), 'combining known and unknown labels')
            mon.raises(Exception, lambda: t.toMatrix(rows=bad), 'matrix of known and unknown labels')
            other = Leg(None, 2, 'absent')
            mon.raises(Exception, lambda: t.moveLegsToFront([t.legs[i] for i in rng.permutation(n)[:2]] + [other]), 'moving a leg of no tensor')
            if n:
                mon.raises(AssertionError, lambda: t.reArrange(m.names[1:]), 'rearranging with a label missing')
                one = t.legs[int(rng.integers(n))]
                mon.raises(Exception, lambda: t.moveLegsToFront([one, one]), 'moving a leg twice')
                mon.raises(Exception, lambda: t.sumOutLeg(one, weights=np.ones(one.dim + 1 if one.dim > 1 else 3)) if one.dim > 1 else t.moveLegsToFront([other]),
                           'weights that do not fit')
            mon.event('refused')
            d = 'bad'
        elif op == 10 and n and len(set(m.names)) == n:
            olds = [m.names[i] for i in rng.permutation(n)[:2]]
            news = ['m{}'.format(int(rng.integers(10 ** 6))) for _ in olds]
            t.renameLabels(olds, news)
            for o, nn in zip(olds, news):
                m.names[m.first(o)] = nn
            d = 'renames{}'.format(olds)
        else:
            continue
        hist.append(d)
        mon.event('op_%d' % op)
        compare(mon, t, m, 'after ' + ' '.join(hist))
        lookups(rng, mon, t, m)
    mon.note(' '.join(hist))


def duplicates(rng, mon):
    sequence(rng, mon, dup=True)


def lookups(rng, mon, t, m):
    for name in set(m.names) | {'absent'}:
        for back in (False, True):
            i = m.first(name, back)
            if not back:            # searching from the front is the default
                mon.check(t.indexOfLabel(name) == i and t.shapeOfLabel(name) == (-1 if i < 0 else m.a.shape[i]), 'lookup of {} without a direction'.format(name), 'lookup')
                leg = t.getLeg(name)
                mon.check((leg is None) if i < 0 else (leg is t.legs[i]), 'getLeg without a direction', 'lookup')
            mon.check(t.indexOfLabel(name, backward=back) == i, lambda: 'indexOfLabel({}, backward={}) in {}'.format(name, back, m.names), 'lookup')
            leg = t.getLeg(name, backward=back)
            mon.check((leg is None) if i < 0 else (leg is t.legs[i]), lambda: 'getLeg({}, {}) in {}'.format(name, back, m.names), 'lookup')
            mon.check(t.shapeOfLabel(name, backward=back) == (-1 if i < 0 else m.a.shape[i]), 'shapeOfLabel', 'lookup')
        mon.check(t.labelInTensor(name) == (name in m.names), 'labelInTensor', 'lookup')
    mon.check(t.labelsInTensor(m.names) and not t.labelsInTensor(m.names + ['absent']), 'labelsInTensor', 'lookup')
    n = m.a.ndim
    if n:
        mon.check(t.getLegIndices(t.legs[::-1]) == list(range(n))[::-1], 'getLegIndices', 'lookup')
        sub = [t.legs[int(i)] for i in rng.permutation(n)[:n // 2]]
        mon.check([id(x) for x in t.complementLegs(sub)] == [id(x) for x in t.legs if x not in sub], 'complementLegs', 'lookup')
        if len(set(m.names)) == n:
            per = [int(i) for i in rng.permutation(n)]
            labs = [m.names[i] for i in per]
            mon.check(t.getLabelIndices(labs) == per, 'getLabelIndices', 'lookup')
            mon.check(tuple(t.shapeOfLabels(labs)) == tuple(m.a.shape[i] for i in per), 'shapeOfLabels', 'lookup')
            k = int(rng.integers(n + 1))
            some = labs[:k] + ['absent'] + labs[k:]
            want = [m.a.shape[i] for i in per[:k]] + [-1] + [m.a.shape[i] for i in per[k:]]
            mon.check(list(t.shapeOfLabels(some)) == want, lambda: 'shapeOfLabels({}) of {!r}: {}'.format(some, t, t.shapeOfLabels(some)), 'lookup_absent')
        else:
            for l in set(m.names):
                if m.names.count(l) >= 2:
                    i, j = m.first(l), m.first(l, True)
                    mon.check(tuple(t.shapeOfLabels([l])) == (m.a.shape[i],) and tuple(t.shapeOfLabels([l], backward=True)) == (m.a.shape[j],),
                              'shapeOfLabels of a repeated label', 'lookup')
                    mon.check(t.getLabelIndices([l, l]) == [i, j] and t.getLabelIndices([l, l], backward=True) == [j, i],
                              'getLabelIndices of a repeated label', 'lookup')


def matrices(rng, mon):
    """matrix views: any split of the legs into rows and columns, in any order, by label or by leg"""
    diag = rng.random() < 0.25
    t, m, kind = make(rng, mon, maxr=5, diag=diag)
    n = m.a.ndim
    per = [int(i) for i in rng.permutation(n)]
    k = int(rng.integers(0, n + 1))
    r, c = per[:k], per[k:]
    form = int(rng.integers(3))
    by = (lambda idx: [m.names[i] for i in idx]) if rng.random() < 0.5 else (lambda idx: [t.legs[i] for i in idx])
    R, C = by(r), by(c)
    if form == 1:
        R, r = None, [i for i in range(n) if i not in c]
    elif form == 2:
        C, c = None, [i for i in range(n) if i not in r]
    want = np.transpose(m.a, r + c).reshape(int(np.prod([m.a.shape[i] for i in r], dtype=int)), -1) if m.a.size else None
    want = np.transpose(m.a, r + c).reshape(int(np.prod([m.a.shape[i] for i in r], dtype=int)), int(np.prod([m.a.shape[i] for i in c], dtype=int)))
    got = t.toMatrix(rows=R, cols=C)
    mon.note('{} {} {} rows {} cols {} form {}'.format(m.a.shape, m.names, kind, r, c, form))
    mon.equal(got, want, 'toMatrix(rows={}, cols={})'.format(r, c))
    compare(mon, t, m, 'toMatrix')
    if not diag:
        mon.equal(t.toVector(), m.a.reshape(-1), 'toVector')
        if want.shape[0] == want.shape[1]:
            mon.equal(t.trace(rows=R, cols=C), np.trace(want), 'trace')
            mon.event('trace')
        else:
            mon.raises(AssertionError, lambda: t.trace(rows=R, cols=C), 'trace of a non-square matrix')
    if n:
        mon.raises(AssertionError, lambda: t.toMatrix(rows=m.names, cols=m.names[:1]), 'legs both in rows and columns')
        if n > 1:
            mon.raises(AssertionError, lambda: t.toMatrix(rows=m.names[:1], cols=m.names[2:]), 'a leg neither in rows nor in columns')
        compare(mon, t, m, 'a refused matrix view')
    if n == 0:
        mon.equal(t.single(), m.a, 'single')
    else:
        mon.raises(AssertionError, lambda: t.single(), 'single value of a tensor with legs')


def bonded(rng, mon):
    """summing out a bonded leg is announced; a data-free tensor has no values"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.contract.link import makeLink
    t, m, kind = make(rng, mon, maxr=4)
    n = m.a.ndim
    mon.note('{} {} {}'.format(t.diagonalFlag, m.a.shape, kind))
    k = t.toTensorLike()
    for nm, f in (('single', lambda: k.single()), ('toTensor', lambda: k.toTensor()), ('norm', lambda: k.norm()), ('toMatrix', lambda: k.toMatrix(rows=m.names[:1], cols=m.names[1:]))):
        mon.raises(Exception, f, nm + ' of a tensor without data')
    if n == 0:
        return
    i = int(rng.integers(n))
    other = Tensor(shape=(m.a.shape[i],), labels=['o'])
    linked = bool(rng.random() < 0.7)
    if linked:
        makeLink(t.legs[i], other.legs[0])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        if rng.random() < 0.5:
            t.sumOutLeg(t.legs[i])
        else:
            t.sumOutLegByLabel(m.names[i])
    mon.check(any(issubclass(x.category, RuntimeWarning) for x in ws) == linked, 'warning for summing out a {} leg: {}'.format('bonded' if linked else 'free', len(ws)), 'bonded_sum')
    m.a = np.tensordot(m.a, np.ones(m.a.shape[i]), ([i], [0]))
    m.names.pop(i)
    mon.check(t.labels == m.names and tuple(t.shape) == m.a.shape, 'legs after summing out', 'labels_compared')
    mon.equal(t.toTensor(), m.a, 'summing out a leg')


def square_trace(rng, mon):
    from CTL.tensor.tensor import Tensor
    d = [int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4)))]
    k = len(d)
    per = [int(i) for i in rng.permutation(2 * k)]
    dims = d + d
    a = np.array(M.rdata(rng, tuple(dims[i] for i in per), M.pick_kind(rng)))
    names = ['x{}'.format(i) for i in per]
    t = Tensor(data=a, labels=names)
    rows, cols = ['x{}'.format(i) for i in range(k)], ['x{}'.format(i + k) for i in range(k)]
    q = rng.permutation(k)
    rows, cols = [rows[i] for i in q], [cols[i] for i in q]
    want = np.einsum(a, [i % k for i in per], [])
    mon.note('trace {} {}'.format(dims, per))
    mon.equal(t.trace(rows=rows, cols=cols), want, 'trace')
    mon.equal(t.trace(rows=rows), want, 'trace(rows)') if [int(x[1:]) - k for x in names if x in cols] == [int(x[1:]) for x in rows] else None


def bond_dimension(rng, mon):
    t, m, kind = make(rng, mon, maxr=4)
    if m.a.ndim == 0:
        if t.diagonalFlag:
            mon.check(t.bondDimension() == 1, 'bond dimension of a scalar', 'bd')
        return
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        b = t.bondDimension()
    same = len(set(m.a.shape)) == 1
    mon.note('{} {}'.format(m.a.shape, t.diagonalFlag))
    mon.check(b == m.a.shape[0] and t.chi == m.a.shape[0], 'bondDimension {} for {}'.format(b, m.a.shape), 'bd')
    mon.check(same == (len(ws) == 0), 'bondDimension warning for shape {}'.format(m.a.shape), 'bd')


WORKLOADS = [
    ('sequence', sequence, 3000, 60000),
    ('duplicates', duplicates, 3000, 60000),
    ('matrices', matrices, 4000, 60000),
    ('square_trace', square_trace, 1500, 20000),
    ('bonded', bonded, 800, 8000),
    ('bond_dimension', bond_dimension, 500, 5000),
]
REQUIRED_OBS = ['sequence.refused'] + ['sequence.op_%d' % i for i in range(12)] + ['matrices.trace', 'sequence.units', 'duplicates.lookup']
