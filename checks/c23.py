"""C23  Names: generated names are fresh, label operations move names and nothing else."""
import string
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C23'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct histories of names / label operations'
ASSUMPTIONS = ['names are drawn from python\'s random module (seeded per case)']
LETTERS = set(string.ascii_letters)


def history(rng, mon):
    """a set of unique strings against a model set, small enough name spaces to collide"""
    from CTL.funcs.stringSet import StringSet
    n = int(rng.choice([1, 1, 2, 3, 10]))
    sets = [(StringSet(n=n) if rng.random() < 0.8 or n != 10 else StringSet(), set(), n) for _ in range(int(rng.integers(1, 3)))]
    log = []
    for _ in range(int(rng.integers(5, 45))):
        ss, model, ln = sets[int(rng.integers(len(sets)))]
        op = int(rng.integers(7))
        pool = sorted(model)
        if op in (0, 1):
            if ln == 1 and len([x for x in model if len(x) == 1 and x in LETTERS]) >= 48:
                continue
            s = ss.newString()
            mon.check(isinstance(s, str) and len(s) == ln and set(s) <= LETTERS,
                      lambda: 'generated name {!r} is not {} ascii letters after {}'.format(s, ln, log), 'generated')
            mon.check(s not in model, lambda: 'generated name {!r} was already in use'.format(s), 'fresh')
            model.add(s)
            log.append('new')
        elif op in (2, 3):
            s = pool[int(rng.integers(len(pool)))] if pool and rng.random() < 0.4 else random_name(rng)
            add = ss.add if op == 2 else ss.newString
            if s in model:
                mon.raises(AssertionError, lambda: add(s), 'adding used name {!r}'.format(s))
            else:
                r = add(s)
                if op == 3:
                    mon.check(r == s, lambda: 'asked for {!r}, got {!r}'.format(s, r), 'given_name')
                model.add(s)
            log.append('add')
        elif op == 4:
            s = pool[int(rng.integers(len(pool)))] if pool and rng.random() < 0.6 else random_name(rng)
            if s in model:
                ss.remove(s)
                model.remove(s)
                mon.event('removed')
            else:
                mon.raises(AssertionError, lambda: ss.remove(s), 'removing unused name {!r}'.format(s))
            log.append('remove')
        else:
            for s in [random_name(rng)] + pool[:3]:
                mon.check(ss.contains(s) is (s in model), lambda: 'contains({!r}) is {}'.format(s, ss.contains(s)), 'membership')
        mon.check(set(ss.stringSet) == model, lambda: 'set holds {} instead of {} after {}'.format(ss.stringSet, model, log), 'state_compared')
    mon.note('history', n, log)
    if n == 1 and len(sets[0][1]) > 15:
        mon.event('crowded')


def random_name(rng):
    return ''.join(string.ascii_letters[int(i)] for i in rng.integers(0, 52, int(rng.integers(1, 4)))) if rng.random() < 0.8 else ['#x', '', ' ', '0', 'a-b', '\u00e9', 'x' * 40, 'None'][int(rng.integers(8))]


def crowded(rng, mon):
    """the whole name space is handed out, each name once"""
    from CTL.funcs.stringSet import StringSet
    from CTL.funcs.funcs import getNewString, randomString
    ss = StringSet(1)
    got = set()
    for _ in range(52):
        s = ss.newString()
        mon.check(s not in got and s in LETTERS, lambda: 'name {!r} repeated or invalid'.format(s), 'fresh')
        got.add(s)
    mon.check(got == LETTERS, 'not all names were handed out', 'exhausted')
    r = got.pop()
    ss.remove(r)
    s = ss.newString()
    mon.check(s == r, lambda: 'only {!r} was free, got {!r}'.format(r, s), 'exhausted')
    keep = set(rng.choice(sorted(LETTERS), int(rng.integers(1, 6)), replace=False).tolist())
    for _ in range(10):
        x = getNewString(LETTERS - keep, n=1)
        mon.check(x in keep, lambda: 'getNewString returned known name {!r}'.format(x), 'fresh')
    n = int(rng.integers(0, 20))
    x = randomString(n)
    mon.check(len(x) == n and set(x) <= LETTERS, lambda: 'randomString({}) = {!r}'.format(n, x), 'generated')
    mon.check(len(randomString()) == 10 and len(getNewString(set())) == 10, 'default length', 'generated')
    mon.note('crowded', r, sorted(keep), n)


def shared(rng, mon):
    """the global name sets never hand out a name twice and do not disturb each other"""
    import CTL.funcs.stringSet as S
    import random
    seed = int(rng.integers(1 << 30))
    seen = {'a': set(), 'b': set(), 'c': set()}
    fns = {'a': S.getMLBondName, 'b': S.getTensorName, 'c': S.getBondName}
    own = {'a': S.MLStringSet, 'b': S.TensorStringSet, 'c': S.BondStringSet}
    for _ in range(30):
        k = 'abc'[int(rng.integers(3))]
        if rng.random() < 0.3:
            random.seed(seed)           # the generator repeats itself: names still have to be fresh
        s = fns[k]()
        mon.check(s not in seen[k], lambda: 'name {!r} handed out twice'.format(s), 'fresh')
        mon.check(own[k].contains(s), lambda: 'name {!r} is not registered'.format(s), 'membership')
        seen[k].add(s)
    mon.note('shared', seed)


# ---------------------------------------------------------------- labels of tensors
def labels(rng, mon):
    """renaming and tagging: names change as asked, data, legs, bonds and everything else stay"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    r = int(rng.integers(0, 6))
    pool = ['a', 'b', 'c', 'aa', 'ab', 'x', '-', 'a-b', 'T-a-b', '-a-', 'x--'] if rng.random() < 0.3 else ['a', 'b', 'c', 'aa', 'ab', 'x']
    names = [pool[int(i)] for i in rng.integers(0, len(pool), r)]
    diag = rng.random() < 0.3 and r > 0
    n = int(rng.integers(1, 4))
    sh = (n,) * r if diag else tuple(int(x) for x in rng.integers(1, 4, r))
    t = DiagonalTensor(shape=sh, labels=list(names), data=rng.standard_normal((n,))) if diag else Tensor(shape=sh, labels=list(names), data=rng.standard_normal(sh))
    if rng.random() < 0.3:
        t = t.toTensorLike()
    legs = list(t.legs)
    data = None if t.a is None else t.a.copy()
    cur = list(names)
    log = []
    for _ in range(int(rng.integers(1, 12))):
        op = int(rng.integers(5))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if op == 0:
                f, to = pool[int(rng.integers(len(pool)))], pool[int(rng.integers(len(pool)))]
                t.renameLabel(f, to)
                if f in cur:
                    cur[cur.index(f)] = to
                    mon.check(len(w) == 0, 'warning although the label exists', 'warning_observed')
                else:
                    mon.check(any(issubclass(x.category, RuntimeWarning) for x in w), 'no warning for an unknown label', 'warning_observed')
                log.append((f, to))
            elif op == 1:
                k = int(rng.integers(0, 8 if rng.random() < 0.2 else 4))
                fs = [pool[int(i)] for i in rng.integers(0, len(pool), k)]
                tos = [pool[int(i)] for i in rng.integers(0, len(pool), k)]
                t.renameLabels(fs, tos)
                for f, to in zip(fs, tos):
                    if f in cur:
                        cur[cur.index(f)] = to
                log.append((fs, tos))
            elif op == 2:
                tag = ['T', 'ul', 'x'][int(rng.integers(3))]
                if any('-' in c for c in cur):
                    before = list(t.labels)
                    mon.raises(AssertionError, lambda: t.addTensorTag(tag), 'tagging {}'.format(cur))
                    mon.check(list(t.labels) == before, lambda: 'a refused tag changed {} to {}'.format(before, t.labels), 'refused')
                else:
                    t.addTensorTag(tag)
                    cur = [tag + '-' + c for c in cur]
                log.append(tag)
            elif op == 3:
                t.removeTensorTag()
                mon.check(len([x for x in w]) == len([c for c in cur if '-' not in c]), 'one warning per leg without a tag', 'warning_observed')
                cur = [c[c.index('-') + 1:] if '-' in c else c for c in cur]
                log.append('untag')
            else:
                mon.raises(AssertionError, lambda: t.renameLabels(['a'], ['a', 'b']), 'lists of different lengths')
        mon.check(list(t.labels) == cur, lambda: 'labels {} instead of {} after {}'.format(t.labels, cur, log), 'labels_compared')
        mon.check(all(x is y for x, y in zip(t.legs, legs)) and len(t.legs) == len(legs), 'legs replaced by renaming', 'legs_kept')
    if data is not None:
        mon.check(np.array_equal(t.a, data), 'renaming changed data', 'data_kept')
    mon.check(tuple(t.shape) == sh, 'renaming changed the shape', 'data_kept')
    mon.note('labels', names, log, diag)
    # lookups
    for lab in pool:
        first = cur.index(lab) if lab in cur else -1
        last = len(cur) - 1 - cur[::-1].index(lab) if lab in cur else -1
        mon.check(t.indexOfLabel(lab) == first and t.indexOfLabel(lab, backward=True) == last, lambda: 'index of {} in {}'.format(lab, cur), 'lookup')
        mon.check(t.labelInTensor(lab) is (lab in cur), 'labelInTensor', 'lookup')
        g = t.getLeg(lab)
        mon.check(g is (t.legs[first] if first >= 0 else None), 'getLeg', 'lookup')
        mon.check(t.shapeOfLabel(lab) == (sh[first] if first >= 0 else -1), 'shapeOfLabel', 'lookup')
        mon.check(t.shapeOfLabel(lab, backward=True) == (sh[last] if first >= 0 else -1), 'shapeOfLabel backward', 'lookup')
    some = [pool[int(i)] for i in rng.integers(0, len(pool), int(rng.integers(0, 3)))]
    mon.check(t.labelsInTensor(some) is all(x in cur for x in some), 'labelsInTensor', 'lookup')


def text(rng, mon):
    """printed forms tell kind, name, shape, labels"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    r = int(rng.integers(0, 4))
    names = [M.NAMES[int(i)] for i in rng.integers(0, len(M.NAMES), r)]
    diag = rng.random() < 0.4 and r > 0
    n = int(rng.integers(1, 4))
    sh = (n,) * r if diag else tuple(int(x) for x in rng.integers(1, 4, r))
    name = [None, 'Tname', 'A'][int(rng.integers(3))]
    dof = [None, 3][int(rng.integers(2))]
    kw = dict(shape=sh, labels=names, name=name, degreeOfFreedom=dof)
    t = DiagonalTensor(**kw) if diag else Tensor(**kw)
    like = rng.random() < 0.4
    if like:
        t = t.toTensorLike()
    for s in (str(t), repr(t)):
        kind = ('Diagonal' if diag else '') + 'Tensor' + ('Like' if like else '')
        mon.check(s.startswith(kind + '('), lambda: '{} printed as {}'.format(kind, s), 'text')
        mon.check(str(sh) in s and str(names) in s, lambda: 'shape {} labels {} printed as {}'.format(sh, names, s), 'text')
        mon.check((name is None) or (name in s), lambda: 'name missing in {}'.format(s), 'text')
        mon.check(('degree of freedom = 3' in s) == (dof == 3), lambda: 'degree of freedom in {}'.format(s), 'text')
    mon.check(t.typeName() == ('Diagonal' if diag else '') + 'Tensor' + ('Like' if like else ''), lambda: 'type name {}'.format(t.typeName()), 'text')
    for l in t.legs:
        mon.check(str(l.dim) in repr(l) and l.name in repr(l), lambda: repr(l), 'text')
    mon.note('text', names, sh, diag, like, name, dof)


WORKLOADS = [('history', history, 3000, 30000), ('crowded', crowded, 200, 1000), ('shared', shared, 500, 3000), ('labels', labels, 6000, 60000), ('text', text, 2000, 10000)]
REQUIRED_OBS = ['history.crowded', 'history.removed', 'history.fresh', 'crowded.exhausted', 'labels.lookup', 'labels.warning_observed']
