"""C25  Utility functions mean what they say (independent definitions, arbitrary input)."""
import contextlib, io
import collections
import itertools
import math
import os
import tempfile
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C25'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct argument tuples over all functions'
ASSUMPTIONS = ['functions marked deprecated are checked against their documentation as well']


def F():
    import CTL.funcs.funcs as f
    return f


def ri(rng, lo, hi):
    return int(rng.integers(lo, hi))


def anylist(rng, hi=8, hashable=True):
    pool = [0, 1, 2, 3, 'a', 'b', 'c', (1, 2), None]
    return [pool[ri(rng, 0, len(pool))] for _ in range(ri(rng, 0, hi))]


def lists(rng, mon):
    f = F()
    total = anylist(rng)
    keep = list(total)
    k = ri(rng, 0, len(total) + 1)
    used = [total[int(i)] for i in rng.permutation(len(total))[:k]]
    got = f.listDifference(total, used)
    want = list(total)
    for x in used:
        want.pop(want.index(x))
    mon.check(got == want, lambda: 'listDifference({}, {}) = {}'.format(total, used, got), 'list')
    mon.check(f.listDifference(tuple(total), used) == want, 'listDifference of a tuple', 'list')
    mon.check(total == keep, 'listDifference changed its input', 'list')
    mon.raises((ValueError, AssertionError), lambda: f.listDifference(total, ['not there']), 'listDifference of a missing element')
    other = anylist(rng)
    mon.check(f.deleteAllInUsed(total, other) == [x for x in total if x not in other], 'deleteAllInUsed', 'list')
    mon.check(f.deleteAllInUsed(total, set(other)) == [x for x in total if x not in other], 'deleteAllInUsed', 'list')
    idx = [ri(rng, 0, 10) for _ in range(ri(rng, 0, 5))]
    mon.check(f.tupleRemoveByIndex(tuple(total), idx) == tuple(x for i, x in enumerate(total) if i not in idx), lambda: 'tupleRemoveByIndex({}, {})'.format(total, idx), 'list')
    perm = [total[int(i)] for i in rng.permutation(len(total))]
    mon.check(f.compareLists(total, perm) is True, 'compareLists of a permutation', 'list')
    same = sorted(map(repr, total)) == sorted(map(repr, other))
    mon.check(f.compareLists(total, other) is same, lambda: 'compareLists({}, {})'.format(total, other), 'list')
    if total:
        dup = total + [total[0]]
        mon.check(f.compareLists(total, dup) is False and f.compareLists(dup[1:], dup) is False, 'compareLists ignores multiplicity', 'list')
    c = f.commonElements(total, other)
    mon.check(collections.Counter(c) == collections.Counter(total) & collections.Counter(other), lambda: 'commonElements({}, {}) = {}'.format(total, other, c), 'list')
    u1, u2 = list(dict.fromkeys(total)), list(dict.fromkeys(other))
    c = f.commonElements(u1, u2)
    mon.check(len(c) == len(set(c)) and set(c) == set(u1) & set(u2), 'commonElements', 'list')
    d = f.listSymmetricDifference(u1, u2)
    mon.check(len(d) == len(set(d)) and set(d) == {x for x in u1 + u2 if (x in u1) != (x in u2)}, lambda: 'listSymmetricDifference {}'.format(d), 'list')
    nums = [ri(rng, 0, 4) for _ in range(ri(rng, 0, 5))]
    allsame = all(x == nums[0] for x in nums)
    mon.check(f.checkAllEqual(tuple(nums)) is allsame and f.checkAllEqual(tuple([2] * len(nums))) is True, lambda: 'checkAllEqual({})'.format(nums), 'list')
    pairs = list(f.pairIterator(total))
    mon.check(len(pairs) == len(total) * (len(total) - 1) // 2 and pairs == [tuple(x) for x in itertools.combinations(total, 2)], 'pairIterator', 'list')
    a, b = anylist(rng, 2) + [1], 'x'
    mon.check(f.tupleSwap((a, b)) == (b, a), 'tupleSwap', 'list')
    elems = [total[ri(rng, 0, len(total))] if total and rng.random() < 0.8 else 'zz' for _ in range(ri(rng, 0, 7))]
    want, seen = [], {}
    for e in elems:
        where = [i for i, x in enumerate(total) if x == e]
        n = seen.get(repr(e), 0)
        want.append(where[n] if n < len(where) else None)
        if n < len(where):
            seen[repr(e)] = n + 1
    got = f.generateIndices(total, elems)
    mon.check(got == want, lambda: 'generateIndices({}, {}) = {} instead of {}'.format(total, elems, got, want), 'list')
    if any(v > 2 for v in seen.values()):
        mon.event('repeated_three_times')
    names = [str(x) for x in total]
    mon.check(f.combineName(names) == '|'.join(names) and f.combineName(names, 'g') == 'g' and f.combineName(names, givenName=None) == '|'.join(names), 'combineName', 'list')
    dic = {str(i): anylist(rng) for i in range(3)}
    some = [str(ri(rng, 0, 3)) for _ in range(ri(rng, 0, 4))]
    mon.check(set(f.getCombineSet(dic, some)) == set(x for n in some for x in dic[n]), 'getCombineSet', 'list')
    mon.raises(AssertionError, lambda: f.getCombineSet(dic, some + ['7']), 'getCombineSet of an unknown name')
    obj = object()
    keys = list(dict.fromkeys(total))
    d = f.identicalTensorDict(obj, keys)
    mon.check(list(d) == keys and all(v is obj for v in d.values()), 'identicalTensorDict', 'list')
    d = f.mapToDict(keys, obj)
    mon.check(set(d) == set(keys) and all(v is obj for v in d.values()), 'mapToDict', 'list')
    f.assertInSet(1, {1, 2}, 'x')
    mon.raises(AssertionError, lambda: f.assertInSet(3, {1, 2}, 'x'), 'assertInSet')
    mon.note('lists', total, used, other, elems, idx)


def integers(rng, mon):
    f = F()
    n = ri(rng, 0, 12)
    x = ri(rng, 0, 1 << max(n, 1))
    bits = f.intToBitList(x, n)
    mon.check(len(bits) == n and all(b in (0, 1) for b in bits) and sum(b << i for i, b in enumerate(bits)) == x % (1 << n), lambda: 'intToBitList({}, {}) = {}'.format(x, n, bits), 'number')
    mon.check(f.intToBitTuple(x, n) == tuple(bits), 'intToBitTuple', 'number')
    D = ri(rng, 2, 12)
    y = ri(rng, 0, 10 ** 6)
    t = f.intToDBaseTuple(y, n, D)
    mon.check(len(t) == n and all(0 <= c < D for c in t) and sum(c * D ** i for i, c in enumerate(t)) == y % D ** n, lambda: 'intToDBaseTuple({}, {}, {}) = {}'.format(y, n, D, t), 'number')
    a, m = ri(rng, -50, 50), ri(rng, 1, 12)
    r = f.safeMod(a, m)
    mon.check(0 <= r < m and (a - r) % m == 0, lambda: 'safeMod({}, {}) = {}'.format(a, m, r), 'number')
    shape = [ri(rng, 1, 6) for _ in range(ri(rng, 0, 6))]
    p = 1
    for s in shape:
        p *= s
    mon.check(f.tupleProduct(tuple(shape)) == p and f.tupleProduct(shape) == p, lambda: 'tupleProduct({})'.format(shape), 'number')
    idx = ri(rng, 0, p)
    labels = ['l{}'.format(i) for i in range(len(shape))]
    d = f.getIndexDict(idx, labels, tuple(shape))
    want = np.unravel_index(idx, tuple(shape)) if shape else ()
    mon.check(set(d) == set(labels) and all(d[l] == int(w) for l, w in zip(labels, want)), lambda: 'getIndexDict({}, {}) = {}'.format(idx, shape, d), 'number')
    big = [2 ** 40, 3 ** 30, 7 ** 20]
    mon.check(f.tupleProduct(tuple(big)) == big[0] * big[1] * big[2], 'tupleProduct overflows', 'number')
    N, P = ri(rng, 0, 80), ri(rng, 0, 80)
    number = [int, int, np.int64, np.int32, np.uint8][ri(rng, 0, 5)]
    mon.check(f.myComb(number(N), number(P)) == math.comb(N, P), lambda: 'myComb({}, {}) = {}'.format(N, P, f.myComb(N, P)), 'number')
    k = ri(rng, 1, 5)
    nn = ri(rng, 0, 7)
    parts = [tuple(x) for x in f.divideIntoKParts(nn, k)]
    mon.check(len(parts) == math.comb(nn + k - 1, k - 1) == len(set(parts)) and all(len(x) == k and sum(x) == nn and min(x) >= 0 for x in parts), lambda: 'divideIntoKParts({}, {}) = {}'.format(nn, k, parts[:5]), 'number')
    div = [ri(rng, 0, 9) for _ in range(ri(rng, 0, 6))]
    div = np.array(div, int) if rng.random() < 0.2 else div
    want = math.factorial(int(sum(div)))
    for c in div:
        want //= math.factorial(int(c))
    mon.check(f.calculateDivisionTimes(div) == want, lambda: 'calculateDivisionTimes({}) = {}'.format(div, f.calculateDivisionTimes(div)), 'number')
    mon.check(sum(f.calculateDivisionTimes(x) for x in parts) == k ** nn, lambda: 'divisions of {} into {} do not add up'.format(nn, k), 'number')
    tup = tuple(ri(rng, 0, 26) for _ in range(ri(rng, 0, 6)))
    mon.check(f.indexTupleToStr(tup) == ''.join(chr(97 + i) for i in tup), lambda: 'indexTupleToStr({})'.format(tup), 'number')
    mon.raises((ValueError, AssertionError), lambda: f.indexTupleToStr(tup + (26 + ri(rng, 0, 5),)), 'indexTupleToStr beyond z')
    mon.raises((ValueError, AssertionError), lambda: f.indexTupleToStr(list(tup)), 'indexTupleToStr of a list')
    s = ''.join('lrud'[ri(rng, 0, 4)] for _ in range(ri(rng, 0, 6)))
    o = f.oppositeDirection(s)
    mon.check(o == s.translate(str.maketrans('lrud', 'rldu')), lambda: 'oppositeDirection({}) = {}'.format(s, o), 'number')
    for ch in s:
        mon.check(f.oppositeSingleDirection(ch) == {'l': 'r', 'r': 'l', 'u': 'd', 'd': 'u'}[ch], 'oppositeSingleDirection', 'number')
    mon.raises(AssertionError, lambda: f.oppositeDirection(s + 'x'), 'direction x')
    spins = [int(x) for x in rng.choice([-1, 1], ri(rng, 1, 9))]
    w = sum(spins[i] * spins[(i + 1) % len(spins)] for i in range(len(spins)))
    mon.check(f.spinChainProductSum(spins) == w, lambda: 'spinChainProductSum({}) = {}'.format(spins, f.spinChainProductSum(spins)), 'number')
    mon.note('integers', x, n, y, D, a, m, shape, idx, N, P, nn, k, div, tup, s, spins)


def floats(rng, mon):
    f = F()
    a = float(rng.normal() * 10.0 ** ri(rng, -4, 5))
    eps = 10.0 ** ri(rng, -8, 0)
    b = a + float(rng.choice([-1, 1])) * eps * float(rng.choice([0, 0.3, 0.9, 1.2, 3, 100]))
    if abs(abs(a - b) - eps) > 1e-3 * eps + 1e-9 * abs(a):
        mon.check(bool(f.floatEqual(a, b, eps)) is (abs(a - b) < eps), lambda: 'floatEqual({}, {}, {})'.format(a, b, eps), 'float')
    mon.check(bool(f.floatEqual(a, a)) is True and bool(f.floatEqual(a, a + 1)) is False, 'floatEqual', 'float')
    rel = eps * 0.5 * (abs(a) + abs(b))
    if abs(abs(a - b) - rel) > 1e-3 * rel + 1e-9 * abs(a):
        mon.check(bool(f.floatRelativeEqual(a, b, eps)) is (abs(a - b) <= rel), lambda: 'floatRelativeEqual({}, {}, {})'.format(a, b, eps), 'float')
        mon.check(bool(f.floatRelativeEqual(-a, -b, eps)) is bool(f.floatRelativeEqual(b, a, eps)), lambda: 'floatRelativeEqual is not symmetric at {}, {}'.format(a, b), 'float')
    mon.check(bool(f.floatRelativeEqual(a, a)) is True and bool(f.floatRelativeEqual(a, -a)) is False, lambda: 'floatRelativeEqual({0}, {0})'.format(a), 'float')
    if a < 0:
        mon.event('negative')
    sh = tuple(ri(rng, 1, 4) for _ in range(ri(rng, 0, 4)))
    x = np.asarray(M.rdata(rng, sh, ['real', 'complex'][ri(rng, 0, 2)]))
    y = x.copy()
    mon.check(bool(f.floatArrayEqual(x, y)) is True, 'floatArrayEqual of copies', 'float')
    if x.size:
        k = ri(rng, 0, x.size)
        y.reshape(-1)[k] += 1e-3
        mon.check(bool(f.floatArrayEqual(x, y)) is False and bool(f.floatArrayEqual(x, y, 1e-2)) is True, 'floatArrayEqual after a change', 'float')
    mon.check(bool(f.floatArrayEqual(x, x.reshape(sh + (1,)))) is False, 'floatArrayEqual of different shapes', 'float')
    lo, hi = sorted([a, float(rng.normal())])
    g = f.getInRangeFunc(lo, hi)
    for v in (lo, hi, (lo + hi) / 2, lo - 1, hi + 1):
        mon.check(bool(g(v)) is (lo < v < hi), 'getInRangeFunc', 'float')
    # binary search
    l = float(rng.normal() * 10)
    r = l + float(rng.random() * 10 + 0.1)
    t = l + (r - l) * float(rng.random())
    e = 10.0 ** ri(rng, -9, 0)
    calls = []
    strict = bool(rng.integers(2))

    def large(v):
        calls.append(v)
        return v > t if strict else v >= t
    got = f.binarySearch(l, r, large, e)
    mon.check(abs(got - t) <= e, lambda: 'binarySearch found {} instead of {} within {}'.format(got, t, e), 'search')
    mon.check(all(l <= v <= r for v in calls) and len(calls) <= 80, 'binarySearch asks outside of the range', 'search')
    mon.raises(AssertionError, lambda: f.binarySearch(r, l, large, e), 'binarySearch of an empty range')
    # numbers so large, or asked for so precisely, that the interval cannot be halved down to eps
    big = 10.0 ** ri(rng, 3, 30)
    l, r, t, e = l * big, r * big, t * big, float(rng.choice([1e-7, 1e-16, 0.0]))
    calls = []

    def bounded(v):
        calls.append(v)
        if len(calls) > 3000:
            raise AssertionError('binarySearch does not end')
        return v > t if strict else v >= t
    got = f.binarySearch(l, r, bounded, e)
    mon.check(abs(got - t) <= e + 4 * np.spacing(max(abs(l), abs(r))), lambda: 'binarySearch found {} instead of {} between {} and {}'.format(got, t, l, r), 'search')
    # cutoff, partial inverse
    s = np.sort(np.abs(rng.standard_normal(ri(rng, 0, 7))))[::-1]
    thr = float(abs(rng.normal()))
    c = f.getCutoff(s, thr)
    mon.check(c == int(np.sum(s >= thr)), lambda: 'getCutoff({}, {}) = {}'.format(s, thr, c), 'float')
    inv = f.partialInverse(s, c)
    mon.equal(inv, [1.0 / v if i < c else 0.0 for i, v in enumerate(s)], 'partialInverse')
    vals = [float(v) for v in rng.standard_normal(ri(rng, 0, 6)) * 10.0 ** rng.integers(-3, 14)]
    th = float(rng.choice([1e10, 1.0, 1e-3]))
    X, Y = f.getValidValues(vals, th) if th != 1e10 else f.getValidValues(vals)
    mon.check(list(X) == [i for i, v in enumerate(vals) if abs(v) < th] and list(Y) == [vals[i] for i in X], lambda: 'getValidValues({}, {})'.format(vals, th), 'float')
    import fractions
    for v, want in [(1, True), (1.5, True), (np.float64(2), True), (np.float32(2), True), (np.int64(3), True), (np.uint8(3), True), (True, False), (1j, False), ('1', False),
                    (None, False), ([1], False), ((1,), False), (fractions.Fraction(1, 2), True), (float('nan'), True)]:
        mon.check(f.isRealNumber(v) is want, lambda: 'isRealNumber({!r})'.format(v), 'float')
    mon.note('floats', a, b, eps, sh, l, r, e, thr, vals)


def arrays(rng, mon):
    f = F()
    h, w = ri(rng, 1, 6), ri(rng, 1, 6)
    kind = M.pick_kind(rng)
    a = np.asarray(M.rdata(rng, (h, w), kind))
    keep = a.copy()
    nrm = lambda x: math.sqrt(float(np.sum(np.abs(x) ** 2)))
    eye = np.array([[1.0 if i == j else 0.0 for j in range(w)] for i in range(h)])
    mon.equal(f.identityError(a), nrm(a - eye), 'identityError')
    for da in (0, 1e-12, 1e-3):
        p = eye + da
        mon.check(bool(f.checkIdentity(p)) is (nrm(p - eye) < 1e-10), lambda: 'checkIdentity at distance {}'.format(da), 'array')
    mon.check(bool(f.checkIdentity(eye + 1e-3, eps=1.0)) is True, 'checkIdentity eps', 'array')
    mon.equal(f.transposeConjugate(a), np.array([[np.conj(a[i, j]) for i in range(h)] for j in range(w)]), 'transposeConjugate')
    b = np.asarray(M.rdata(rng, (h, w), kind))
    ad = np.einsum('ji,jk->ik', np.conj(a), a)
    mon.equal(f.aDaggerAProduct(a), ad, 'aDaggerAProduct')
    mon.equal(f.aADaggerProduct(a), np.einsum('ij,kj->ik', a, np.conj(a)), 'aADaggerProduct')
    mon.equal(f.projectorError(a), nrm(ad - np.eye(w)), 'projectorError')
    if nrm(a) > 0:
        mon.equal(f.matDiffError(a, b), nrm(a - b) / nrm(a), 'matDiffError')
        sq = np.asarray(M.rdata(rng, (h, h), kind))
        if nrm(sq) > 0:
            mon.equal(f.symmetricError(sq), nrm(sq - sq.T) / nrm(sq), 'symmetricError')
            off = sq - np.diag(np.diag(sq))
            mon.equal(f.diagError(sq), nrm(off) / nrm(sq), 'diagError')
        mon.equal(f.normalizeInfinity(a), a / np.max(np.abs(a)), 'normalizeInfinity')
        mon.check(abs(np.max(np.abs(f.normalizeInfinity(a))) - 1) < 1e-12, 'normalizeInfinity', 'array')
    dr, dl = np.asarray(M.rdata(rng, (w,), kind)), np.asarray(M.rdata(rng, (h,), kind))
    mon.equal(f.rightDiagonalProduct(a, dr), a @ np.diag(dr), 'rightDiagonalProduct')
    mon.equal(f.leftDiagonalProduct(a, dl), np.diag(dl) @ a, 'leftDiagonalProduct')
    r = ri(rng, 0, 5)
    v = np.asarray(M.rdata(rng, (h,), kind))
    t = f.diagonalNDTensor(v, r)
    if r > 0:
        mon.equal(t, M.dense_of_diag(v, r), 'diagonalNDTensor of rank {}'.format(r))
        mon.check(t.dtype == v.dtype, lambda: 'diagonalNDTensor turned {} into {}'.format(v.dtype, t.dtype), 'array')
        mon.equal(f.ndEye(r, h), M.dense_of_diag(np.ones(h), r), 'ndEye({}, {})'.format(r, h))
    s = np.array([0.0, 1e-12, 1e-9, -1e-9, 1e-11, 2.0, -3.0, 1e-10 * 0.5, 1e8, -4e5])[rng.integers(0, 10, ri(rng, 0, 9))]
    mon.check(f.nonZeroElementN(s) == int(np.sum(np.abs(s) > 1e-10)), lambda: 'nonZeroElementN({}) = {}'.format(s, f.nonZeroElementN(s)), 'array')
    mon.check(f.nonZeroElementN(s, eps=0.5) == int(np.sum(np.abs(s) > 0.5)) and type(f.nonZeroElementN(s)) is int, 'nonZeroElementN eps', 'array')
    sh = tuple(ri(rng, 1, 4) for _ in range(ri(rng, 1, 5)))
    x = np.asarray(M.rdata(rng, sh, kind))
    ax = ri(rng, 0, len(sh))
    wts = np.asarray(M.rdata(rng, (sh[ax],), M.pick_kind(rng)))
    mon.equal(f.sumOnAxis(x, ax), x.sum(axis=ax), 'sumOnAxis')
    mon.equal(f.sumOnAxis(x, ax, weights=wts), np.tensordot(x, wts, ((ax,), (0,))), 'sumOnAxis weighted', scale=np.sum(np.abs(x)) * max(1, np.max(np.abs(wts))))
    q = f.randomArray(sh)
    mon.check(q.shape == sh and bool(np.all((q >= -1) & (q < 1))), 'randomArray', 'array')
    big = f.randomArray((4000,))
    mon.check(bool(abs(big.mean()) < 0.1 and big.min() < -0.9 and big.max() > 0.9 and abs(big.var() - 1 / 3) < 0.05), 'randomArray is not uniform in [-1, 1)', 'array')
    mon.check(np.array_equal(a, keep), 'an input array was changed', 'array')
    # text file of numbers
    d = rng.standard_normal((ri(rng, 1, 4), ri(rng, 1, 4)))
    fd, path = tempfile.mkstemp(prefix='c25_')
    try:
        with os.fdopen(fd, 'w') as fh:
            for row in d:
                fh.write(' '.join(repr(float(z)) for z in row) + '\n')
        mon.equal(f.loadData(path), d, 'loadData', tol=0)
    finally:
        os.unlink(path)
    J = float(rng.normal())
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        mon.check([f.triangleWeight(k, J) for k in (0, 1, 3)] == [1, 0.0, 0.0], 'triangleWeight', 'array')
        mon.equal(f.triangleWeight(2, J), math.exp(J), 'triangleWeight')
    mon.check(len(rec) == 4, 'deprecation warnings', 'warning_observed')
    mon.note('arrays', h, w, kind, r, sh, ax, float(a.ravel()[0].real))


def messages(rng, mon):
    f = F()
    e = ''.join('ab c'[ri(rng, 0, 4)] for _ in range(ri(rng, 0, 8)))
    l = ['x.y', 'CTL.funcs', ''][ri(rng, 0, 3)]
    mon.check(f.errorMessage(e) == 'Error: ' + e and f.errorMessage(e, l) == 'Error in {}: {}'.format(l, e) == f.errorMessage(err=e, location=l), 'errorMessage', 'text')
    mon.check(f.warningMessage(e) == 'Warning: ' + e and f.warningMessage(warn=e, location=l) == 'Warning in {}: {}'.format(l, e), 'warningMessage', 'text')
    for kw in ({}, {'fileName': 'f.py'}, {'newFuncName': 'g'}, {'deprecateMessage': 'why not'}, {'fileName': 'f.py', 'newFuncName': 'g'}):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            f.deprecatedFuncWarning('fn' + e, **kw)
        m = str(rec[0].message) if rec else ''
        mon.check(len(rec) == 1 and 'fn' + e in m and 'deprecated' in m and all(v in m for v in kw.values()), lambda: 'deprecation message {!r} for {}'.format(m, kw), 'text')
    # data types: most precise real or complex type of two
    names = ['float16', 'float32', 'float64', 'complex64', 'complex128', 'longdouble', 'clongdouble']
    a, b = [np.dtype(names[ri(rng, 0, 7)]) for _ in range(2)]
    acc = max(t.itemsize // (2 if t.kind == 'c' else 1) for t in (a, b))
    cx = 'c' in (a.kind, b.kind)
    if not (cx and acc == 2):
        want = np.dtype(('c' if cx else 'f') + str(acc * (2 if cx else 1)))
        mon.check(np.dtype(f.priorDataType(a, b)) == want, lambda: 'priorDataType({}, {}) = {}'.format(a, b, f.priorDataType(a, b)), 'text')
    mon.note('messages', e, l, str(a), str(b))


def tensors(rng, mon):
    """tensor factories put data under the documented labels"""
    from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor, makeSquareOutTensor
    k = ri(rng, 0, 4)
    kind = M.pick_kind(rng)
    r = 4 if k == 1 else 3
    sh = tuple(ri(rng, 1, 5) for _ in range(r))
    if rng.random() < 0.1:
        sh = tuple(ri(rng, 1, 40 if r == 3 else 14) for _ in range(r))
    x = np.asarray(M.rdata(rng, sh, kind))
    if x.dtype.kind in 'fc' and rng.random() < 0.3:
        x = x * 10.0 ** int(rng.choice([-300, -200, -30, 30, 200, 300, 307]))
    keep = x.copy()
    loc = ['ul', 'ur', 'dl', 'dr'][ri(rng, 0, 4)]
    from CTL.tensorbase.tensorbase import TensorBase
    b, e = TensorBase(x), TensorBase()
    mon.check(b.a is x and b.dim == r and tuple(b.shape) == sh, lambda: 'base of data of shape {}: {} {}'.format(sh, b.dim, b.shape), 'base')
    with contextlib.redirect_stdout(io.StringIO()) as said:
        mon.check(e.a is None and e.dim is None and e.shape is None, 'base without data', 'base')
    mon.check('has not been initialized' in said.getvalue(), 'asking a base without data for its shape is not reported', 'base')
    if k == 0:
        t, want, fn = makeTriangleTensor(x), ['1', '2', '3'], makeTriangleTensor
    elif k == 1:
        t, want, fn = makeSquareTensor(x), ['u', 'l', 'd', 'r'], makeSquareTensor
    elif k == 2:
        want = [M.NAMES[int(i)] for i in rng.choice(len(M.NAMES), 3, replace=False)]
        t, fn = makeTriangleTensor(x, labels=list(want)), makeTriangleTensor
    else:
        t, fn = makeSquareOutTensor(x, loc), None
        want = [{'u': 'd', 'd': 'u'}[loc[0]], {'l': 'r', 'r': 'l'}[loc[1]], 'o']
    mon.note('tensors', k, sh, kind, loc)
    mon.check(list(t.labels) == want, lambda: 'labels {} instead of {}'.format(t.labels, want), 'labels_compared')
    mon.check(t.a.dtype == x.dtype and np.array_equal(t.a, x), 'data', 'data_compared')
    t.a[...] = 0
    mon.check(np.array_equal(x, keep), 'tensor shares memory with the given array', 'aliasing')
    # again, after changing the labels of the first one
    t.addTensorTag('q')
    t2 = (makeSquareOutTensor(x, loc) if fn is None else fn(x) if k < 2 else fn(x, labels=list(want)))
    mon.check(list(t2.labels) == want, lambda: 'labels of a second tensor are {}'.format(t2.labels), 'labels_compared')
    if fn is not None:
        mon.raises(AssertionError, lambda: fn(np.zeros((2,) * (r + 1))), 'wrong rank')
        mon.raises(AssertionError, lambda: fn(np.zeros((2,) * (r - 1))), 'wrong rank')
    mon.raises(AssertionError, lambda: makeSquareOutTensor(np.zeros((2, 2, 2)), 'lu'), 'unknown corner')


def fresh(rng, mon):
    """the result of a call belongs to the caller: changing it leaves the arguments and later calls as they are"""
    import copy
    f = F()
    n, l = ri(rng, 0, 4), ri(rng, 1, 4)
    v = np.asarray(M.rdata(rng, (l,), M.pick_kind(rng)))
    mat = np.asarray(M.rdata(rng, (l, ri(rng, 1, 4)), M.pick_kind(rng)))
    xs, ys = anylist(rng), anylist(rng)
    tp = tuple(ri(rng, 1, 5) for _ in range(ri(rng, 1, 5)))
    calls = [('ndEye', (n, l)), ('diagonalNDTensor', (v, n)), ('normalizeInfinity', (v + (np.abs(v).max() == 0),)), ('aDaggerAProduct', (mat,)), ('aADaggerProduct', (mat,)),
             ('transposeConjugate', (mat,)), ('rightDiagonalProduct', (mat.T, v)), ('leftDiagonalProduct', (mat, v)), ('partialInverse', (np.abs(v) + 1.0, l)),
             ('sumOnAxis', (mat, 0)), ('sumOnAxis', (mat, 0, v)), ('listDifference', (xs + ys, ys)), ('deleteAllInUsed', (xs, ys)), ('commonElements', (xs, ys)),
             ('listSymmetricDifference', (xs, ys)), ('intToBitList', (ri(rng, 0, 99), 7)), ('getIndexDict', (0, ['l{}'.format(i) for i in range(len(tp))], tp)),
             ('divideIntoKParts', (ri(rng, 0, 5), ri(rng, 1, 4))), ('getValidValues', (list(np.abs(v)),)), ('mapToDict', (['a', 'b'], 1)),
             ('identicalTensorDict', (1.5, ['a', 'b'])), ('getCombineSet', ({'a': [1, 2], 'b': [2, 3]}, ['a', 'b'])), ('generateIndices', (xs, ys)),
             ('pairIterator', (xs,)), ('tupleRemoveByIndex', (tp, [0]))]
    name, args = calls[ri(rng, 0, len(calls))]
    fn = getattr(f, name)
    keep = copy.deepcopy(args)
    mon.note('fresh', name, repr(args))

    def plain(x):
        return x.tolist() if isinstance(x, np.ndarray) else ([plain(y) for y in x] if isinstance(x, (list, tuple)) else x)

    def call():
        r = fn(*args)
        return list(r) if hasattr(r, '__next__') else r
    r = call()
    first = copy.deepcopy(r)
    mon.check(plain(args) == plain(keep), lambda: '{} changed its arguments'.format(name), 'arguments')
    if isinstance(r, np.ndarray) and r.ndim and r.flags.writeable:
        r[...] = 3
    elif isinstance(r, list):
        for y in r:
            if isinstance(y, list):
                y.append('more')
        r.append('more')
    elif isinstance(r, dict):
        r['more'] = 1
    elif isinstance(r, set):
        r.add('more')
    else:
        raise Skip()
    mon.check(plain(args) == plain(keep), lambda: 'changing the result of {} changed its arguments'.format(name), 'arguments')
    again = call()
    same = plain(again) == plain(first) if not isinstance(again, np.ndarray) else again.shape == first.shape and np.allclose(again, first, rtol=1e-10, atol=0) and again.dtype == first.dtype
    mon.check(same, lambda: '{}{} gives {} after the result of a call with the same arguments was changed, {} before'.format(name, args, again, first), 'fresh_result')


WORKLOADS = [('fresh', fresh, 1500, 15000), ('lists', lists, 5000, 50000), ('integers', integers, 2000, 20000), ('floats', floats, 4000, 40000), ('arrays', arrays, 2000, 20000),
             ('messages', messages, 500, 3000), ('tensors', tensors, 2000, 20000)]
REQUIRED_OBS = ['fresh.fresh_result', 'lists.repeated_three_times', 'floats.negative', 'floats.search', 'arrays.warning_observed', 'tensors.aliasing']
