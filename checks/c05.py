"""C05  The graph of tensors, legs and bonds stays consistent, and its value predictable, through any history of operations."""
import numpy as np
import model as M

ID = 'C05'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct operation histories (operation names with their arguments) of length at least 4'


class World:
    """Pool of real tensors and, beside it, a plain-data model of each."""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.pool = []        # entries: dict(t=real tensor, labels=[...], val=dense array)
        self.bonds = {}       # label -> label, symmetric
        self.k = 0
        self.hist = []

    def fresh(self):
        self.k += 1
        return 'g{}'.format(self.k)

    def pick(self, n=1):
        if len(self.pool) < n:
            return None
        return [self.pool[int(i)] for i in self.rng.choice(len(self.pool), n, replace=False)]

    def dims(self, e):
        return dict(zip(e['labels'], e['val'].shape))

    def leg(self, e, lab):
        return e['t'].getLeg(lab)

    # ---- monitors
    def verify(self, what):
        mon = self.mon
        M.check_links(mon, [e['t'] for e in self.pool], what)
        if self.rng.random() < 0.1:
            M.foreign_bonds(self.rng, mon, [e['t'] for e in self.pool], what)
        owner = {l: e for e in self.pool for l in e['labels']}
        for e in self.pool:
            t = e['t']
            mon.check(sorted(t.labels) == sorted(e['labels']), lambda: 'after {}: labels {} expected {}; history {}'.format(what, t.labels, e['labels'], self.hist), 'state_compared')
            for l in e['labels']:
                leg = t.getLeg(l)
                o = leg.anotherSide()
                want = self.bonds.get(l)
                mon.check((None if o is None else o.name) == want,
                          lambda: 'after {}: leg {} is bonded to {} expected {}; history {}'.format(what, l, None if o is None else o.name, want, self.hist), 'bond_compared')
                if want is not None:
                    mon.check(o.tensor is owner[want]['t'], 'after {}: bond of {} leads to the wrong tensor'.format(what, l), 'bond_compared')

    def values(self, what):
        for e in self.pool:
            c = e['t'].copy()
            got = np.array(c.toTensor(list(e['labels'])))
            self.mon.equal(got, e['val'], 'after {}: value of a tensor; history {}'.format(what, self.hist), kind='value_compared',
                           scale=max(1.0, e.get('scale', 1.0)))

    # ---- operations; each returns a description or None when not applicable
    def op_new(self):
        rng = self.rng
        if len(self.pool) >= 7:
            return None
        from CTL.tensor.tensor import Tensor
        from CTL.tensor.diagonalTensor import DiagonalTensor
        r = int(rng.integers(0, 4))
        labs = [self.fresh() for _ in range(r)]
        kind = M.pick_kind(rng)
        if rng.random() < 0.35:
            d = int(rng.integers(1, 4))
            v = M.rdata(rng, (d,) if r else (), kind)
            t = DiagonalTensor(data=np.array(v), labels=labs, shape=(d,) * r) if r else DiagonalTensor(data=np.array(v), shape=())
            val = M.dense_of_diag(np.array(v), r)
        else:
            val = np.array(M.rdata(rng, tuple(int(x) for x in rng.integers(1, 4, r)), kind))
            t = Tensor(data=np.array(val), labels=list(labs))
        self.pool.append({'t': t, 'labels': labs, 'val': val, 'scale': 1.0})
        return 'new{}'.format('D' if t.diagonalFlag else '') + str(val.shape)

    def op_link(self):
        from CTL.tensor.contract.link import makeLink
        p = self.pick(2)
        if p is None:
            return None
        a, b = p
        da, db = self.dims(a), self.dims(b)
        cand = [(x, y) for x in da for y in db if x not in self.bonds and y not in self.bonds and da[x] == db[y]]
        if not cand:
            return None
        x, y = cand[int(self.rng.integers(len(cand)))]
        f = int(self.rng.integers(3))
        if f == 0:
            r = makeLink(x, y, a['t'], b['t'])
        elif f == 1:
            r = makeLink(self.leg(a, x), self.leg(b, y))
        else:
            r = makeLink([x], [self.leg(b, y)], a['t'], None)
        self.mon.check(len(r) == 1 and set(r[0].legs) == {self.leg(a, x), self.leg(b, y)}, 'makeLink did not return the bond it made', 'link_result')
        self.bonds[x] = y
        self.bonds[y] = x
        return 'link {} {}'.format(x, y)

    def op_links(self):
        """several links at once"""
        from CTL.tensor.contract.link import makeLink
        p = self.pick(2)
        if p is None:
            return None
        a, b = p
        da, db = self.dims(a), self.dims(b)
        xs, ys = [], []
        for i in self.rng.permutation(len(a['labels'])):
            x = a['labels'][int(i)]
            cand = [y for y in db if y not in self.bonds and y not in ys and da[x] == db[y]]
            if x not in self.bonds and cand:
                xs.append(x)
                ys.append(cand[int(self.rng.integers(len(cand)))])
        if len(xs) < 2:
            return None
        want = [{self.leg(a, x), self.leg(b, y)} for x, y in zip(xs, ys)]
        X = [x if self.rng.random() < 0.5 else self.leg(a, x) for x in xs]
        Y = [y if self.rng.random() < 0.5 else self.leg(b, y) for y in ys]
        if self.rng.random() < 0.3:
            X = tuple(X)
        r = makeLink(X, Y, a['t'], b['t'])
        self.mon.check([set(q.legs) for q in r] == want, lambda: 'makeLink of {} with {} did not return the bonds in the order asked for'.format(xs, ys), 'link_result')
        self.mon.event('several_links')
        for x, y in zip(xs, ys):
            self.bonds[x] = y
            self.bonds[y] = x
        return 'links {} {}'.format(xs, ys)

    def op_write(self):
        """the entries of a tensor are written to"""
        e = self.pick(1)[0] if self.pool else None
        t = e['t'] if e else None
        if t is None or not isinstance(t.a, np.ndarray) or t.a.ndim == 0 or not t.a.flags.writeable:
            return None
        t.norm()
        if self.rng.random() < 0.5:
            t.a[...] = t.a * 2
        else:
            t.a = t.a * 2
        e['val'] = e['val'] * 2
        e['scale'] = e.get('scale', 1.0) * 2
        n = np.linalg.norm(e['val'])
        self.mon.equal(t.norm(), n, 'norm after writing; history {}'.format(self.hist), kind='norm_compared', scale=max(1.0, e['scale'], float(n)))
        return 'write {}'.format(e['labels'])

    def op_contract(self):
        from CTL.tensor.contract.contract import contractTwoTensors
        p = self.pick(2)
        if p is None:
            return None
        a, b = p
        shared = [l for l in a['labels'] if self.bonds.get(l) in b['labels']]
        if not shared and self.rng.random() < 0.7:
            return None
        ids = {l: i for i, l in enumerate(a['labels'] + b['labels'])}
        for l in shared:
            ids[self.bonds[l]] = ids[l]
        out = [l for l in a['labels'] + b['labels'] if l not in shared and self.bonds.get(l) not in shared]
        size = np.prod([dict(self.dims(a), **self.dims(b))[l] for l in out], dtype=float)
        if size > 3000 or len(out) > 9:
            return None
        val = np.einsum(a['val'], [ids[l] for l in a['labels']], b['val'], [ids[l] for l in b['labels']], [ids[l] for l in out])
        for l in shared:
            self.bonds.pop(self.bonds.pop(l))
        t = (a['t'] @ b['t']) if self.rng.random() < 0.5 else contractTwoTensors(b['t'], a['t'], outProductWarning=False)
        self.pool = [e for e in self.pool if e is not a and e is not b]
        sc = max(float(np.max(np.abs(val))) if val.size else 1.0, a['scale'] * b['scale'] * max(1.0, float(np.max(np.abs(a['val']))) * float(np.max(np.abs(b['val'])))))
        self.pool.append({'t': t, 'labels': out, 'val': val, 'scale': sc})
        return 'contract over {}'.format(shared)

    def op_rename(self):
        p = self.pick()
        if p is None or not p[0]['labels']:
            return None
        e = p[0]
        l = e['labels'][int(self.rng.integers(len(e['labels'])))]
        n = self.fresh()
        if self.rng.random() < 0.5:
            e['t'].renameLabel(l, n)
        else:
            e['t'].renameLabels([l], [n])
        e['labels'] = [n if x == l else x for x in e['labels']]
        if l in self.bonds:
            o = self.bonds.pop(l)
            self.bonds[n] = o
            self.bonds[o] = n
        return 'rename {} {}'.format(l, n)

    def op_move(self):
        p = self.pick()
        if p is None or not p[0]['labels']:
            return None
        e = p[0]
        per = [e['labels'][i] for i in self.rng.permutation(len(e['labels']))]
        f = int(self.rng.integers(4))
        if f == 0:
            e['t'].reArrange(per)
        elif f == 1:
            e['t'].moveLabelsToFront(per[:1 + len(per) // 2])
        elif f == 2:
            e['t'].moveLegsToFront([self.leg(e, l) for l in per[:1]])
        else:
            e['t'].toTensor(per)
        return 'move{} {}'.format(f, per)

    def op_out(self):
        p = self.pick()
        if p is None:
            return None
        e = p[0]
        free = [l for l in e['labels'] if l not in self.bonds]
        if len(free) < 1 or e['t'].diagonalFlag:
            return None
        k = int(self.rng.integers(1, len(free) + 1))
        ch = [free[i] for i in self.rng.permutation(len(free))[:k]]
        n = self.fresh()
        if self.rng.random() < 0.5:
            r = e['t'].outProduct(ch, n)
        else:
            r = e['t'].outProduct([self.leg(e, l) for l in ch], n)
        self.mon.check(r.name == n and any(r is x for x in e['t'].legs), 'outProduct did not return the new leg', 'out_result')
        rest = [l for l in e['labels'] if l not in ch]
        v = np.transpose(e['val'], [e['labels'].index(l) for l in ch + rest])
        e['val'] = v.reshape((-1,) + v.shape[k:])
        e['labels'] = [n] + rest
        return 'outProduct {}'.format(ch)

    def op_sum(self):
        p = self.pick()
        if p is None:
            return None
        e = p[0]
        free = [l for l in e['labels'] if l not in self.bonds]
        if not free:
            return None
        l = free[int(self.rng.integers(len(free)))]
        ax = e['labels'].index(l)
        w = self.rng.standard_normal(e['val'].shape[ax]) if self.rng.random() < 0.5 else None
        if self.rng.random() < 0.5:
            e['t'].sumOutLegByLabel(l, weights=w)
        else:
            e['t'].sumOutLeg(self.leg(e, l), weights=w)
        e['val'] = np.tensordot(e['val'], np.ones(e['val'].shape[ax]) if w is None else w, ([ax], [0]))
        e['scale'] *= 10
        e['labels'] = [x for x in e['labels'] if x != l]
        return 'sumOut {} {}'.format(l, w is not None)

    def op_merge(self):
        from CTL.tensor.contract.link import mergeLink
        from CTL.tensor.contract.contract import merge
        p = self.pick(2)
        if p is None:
            return None
        a, b = p
        shared = [l for l in a['labels'] if self.bonds.get(l) in b['labels']]
        if len(shared) < 2 or a['t'].diagonalFlag or b['t'].diagonalFlag:
            return None
        n1, n2 = self.fresh(), self.fresh()
        f = mergeLink if self.rng.random() < 0.5 else merge
        ta, tb = f(a['t'], b['t'], bondName=(n1, n2), renameWarning=False)
        other = [self.bonds[l] for l in shared]
        for e, ch, n, t in ((a, shared, n1, ta), (b, other, n2, tb)):
            # the order in which the legs are combined is read off nothing: both sides must agree,
            # which the value of the pair (checked when they are contracted) decides
            rest = [l for l in e['labels'] if l not in ch]
            e['t'] = t
            e['labels'] = [n] + rest
            e['val'] = None
        for l in shared:
            self.bonds.pop(self.bonds.pop(l))
        self.bonds[n1], self.bonds[n2] = n2, n1
        # each merged side equals the reshaped original for ONE common order of the merged legs
        return ('merge', a, b, shared, other)

    def op_tag(self):
        p = self.pick()
        if p is None or not p[0]['labels']:
            return None
        e = p[0]
        e['t'].addTensorTag('tg')
        self.mon.check(sorted(e['t'].labels) == sorted('tg-' + l for l in e['labels']), 'tagged labels {}'.format(e['t'].labels), 'tag')
        e['t'].removeTensorTag()
        return 'tag'

    def op_refused(self):
        """requests that cannot be met are refused and leave everything as it was (verified by the caller)"""
        from CTL.tensor.contract.link import makeLink, mergeLink
        rng, mon = self.rng, self.mon
        p = self.pick(2)
        if p is None:
            return None
        a, b = p
        f = int(rng.integers(6))
        if f == 0:                              # links of which one does not fit
            da = [l for l in a['labels'] if l not in self.bonds]
            db = [l for l in b['labels'] if l not in self.bonds]
            x, y = self.dims(a), self.dims(b)
            k = min(len(da), len(db))
            if k < 1 or all(x[i] == y[j] for i, j in zip(da[:k], db[:k])):
                return None
            mon.raises(Exception, lambda: makeLink(da[:k], db[:k], a['t'], b['t']), 'links of legs of different dimensions')
        elif f == 1:
            mon.raises(Exception, lambda: a['t'].moveLabelsToFront(a['labels'][-1:] + ['absent']), 'moving an unknown label')
        elif f == 2:
            if not b['labels']:
                return None
            mon.raises(Exception, lambda: a['t'].moveLegsToFront(list(a['t'].legs[-1:]) + [b['t'].legs[0]]), 'moving a leg of another tensor')
        elif f == 3:
            shared = [l for l in a['labels'] if self.bonds.get(l) in b['labels']]
            if len(shared) < 2 or not (a['t'].diagonalFlag or b['t'].diagonalFlag):
                return None
            mon.raises(TypeError, lambda: mergeLink(a['t'], b['t']), 'merging the bonds of a diagonal tensor')
            mon.event('refused_merge')
        elif f == 4:
            like = a['t'].toTensorLike()
            mon.raises(TypeError, lambda: like @ b['t'], 'contraction of tensors with and without data')
        else:
            mon.raises(Exception, lambda: a['t'].outProduct(a['labels'][:1] + ['absent'], 'new'), 'combining an unknown label')
        return 'refused {}'.format(f)

    def op_sub(self):
        """contracting a part of the network: on copies (which changes nothing), then for good"""
        from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, generateOptimalSequence, generateGreedySequence
        k = int(self.rng.integers(2, 5))
        p = self.pick(k)
        if p is None:
            return None
        labs = [l for e in p for l in e['labels']]
        inner = [l for l in labs if self.bonds.get(l) in labs]
        out = [l for l in labs if l not in inner]
        ids = {}
        for l in labs:
            ids[l] = ids.get(self.bonds.get(l), len(ids))
        dim = {l: d for e in p for l, d in self.dims(e).items()}
        # no outer products: sizes stay small
        if np.prod([dim[l] for l in out] + [1.0]) > 3000 or len(out) > 9 or np.prod([float(e['val'].size) for e in p]) > 1e6:
            return None
        ops = []
        for e in p:
            ops += [e['val'], [ids[l] for l in e['labels']]]
        val = M.contract_dense(ops, [ids[l] for l in out])
        ts = [e['t'] for e in p]
        copy = contractTensorList(ts, outProductWarning=False)
        sc = float(np.prod([e['scale'] * max(1.0, float(np.max(np.abs(e['val'])))) for e in p])) * max(1.0, float(np.prod([dim[l] for l in inner] + [1.0])))
        self.mon.equal(M.observe(self.mon, copy, out, 'contraction of copies'), val, 'contraction of copies; history {}'.format(self.hist), tol=1e-8,
                       scale=max(float(np.max(M.contract_dense([np.abs(o) if isinstance(o, np.ndarray) else o for o in ops], [ids[l] for l in out]), initial=0)), 1e-4 * sc))
        self.verify('contracting copies of a part')
        if self.rng.random() < 0.5:
            return 'copy contraction {}'.format(out)
        seq = generateOptimalSequence(ts) if self.rng.random() < 0.6 else generateGreedySequence(ts)
        t = contractWithSequence(list(ts), seq=seq, inplace=True, outProductWarning=False)
        for l in inner:
            if l in self.bonds:
                self.bonds.pop(self.bonds.pop(l))
        self.pool = [e for e in self.pool if not any(e is x for x in p)]
        self.pool.append({'t': t, 'labels': out, 'val': val, 'scale': sc})
        return 'contract part {}'.format(out)

    def op_rebuild(self):
        """a tensor made from the legs of another takes its place"""
        from CTL.tensor.tensor import Tensor
        p = self.pick()
        if p is None or p[0]['t'].diagonalFlag:
            return None
        e = p[0]
        per = [e['labels'][i] for i in self.rng.permutation(len(e['labels']))]
        legs = [self.leg(e, l) for l in per]
        f = int(self.rng.integers(1, 4))
        e['val'] = np.transpose(e['val'], [e['labels'].index(l) for l in per]) * f
        e['labels'] = per
        e['scale'] *= f
        e['t'] = Tensor(data=np.array(e['val']), legs=legs)
        return 'rebuild {}'.format(per)

    def op_copylist(self):
        from CTL.tensor.contract.optimalContract import copyTensorList
        new = copyTensorList([e['t'] for e in self.pool])
        for e, t in zip(self.pool, new):
            e['t'] = t
        return 'copyTensorList'

    def op_copylinked(self):
        """a copied sub list takes over its outgoing bonds"""
        from CTL.tensor.contract.optimalContract import copyTensorList
        p = self.pick(min(int(self.rng.integers(1, 4)), len(self.pool)))
        if not p:
            return None
        old = [e['t'] for e in p]
        out = [l for t in old for l in t.legs if l.bond is not None and not any(l.anotherSide().tensor is x for x in old)]
        new = copyTensorList(old, linkOutgoingBonds=True)
        self.mon.check(all(l.bond is None for l in out), 'the originals still hold bonds that were taken over', 'bond_compared')
        for e, t in zip(p, new):
            e['t'] = t
        return 'copyTensorList(linkOutgoingBonds) of {}'.format([e['labels'] for e in p])


OPS = ['op_new', 'op_new', 'op_link', 'op_link', 'op_links', 'op_links', 'op_write', 'op_contract', 'op_contract', 'op_rename', 'op_move', 'op_out', 'op_sum', 'op_merge', 'op_tag', 'op_copylist', 'op_copylinked', 'op_refused', 'op_sub', 'op_rebuild']


def run(rng, mon, length):
    w = World(rng, mon)
    for _ in range(3):
        w.op_new()
    for _ in range(length):
        op = OPS[int(rng.integers(len(OPS)))]
        r = None
        if op == 'op_merge':
            cand = [(a, b) for a in w.pool for b in w.pool if a is not b]
            r = merge_step(w, mon)
        else:
            r = getattr(w, op)()
        if r is None:
            continue
        w.hist.append(r)
        mon.trace(r)
        mon.event(op)
        w.verify(r)
        if rng.random() < 0.3:
            w.values(r)
    w.values('the end')
    if len(w.hist) >= 4:
        mon.note(' ; '.join(w.hist))
    # whatever is left: contract everything and compare with the model
    from CTL.tensor.contract.optimalContract import contractTensorList
    ids = {}
    for e in w.pool:
        for l in e['labels']:
            ids.setdefault(l, ids.get(w.bonds.get(l), len(ids)))
    out = [l for e in w.pool for l in e['labels'] if l not in w.bonds]
    size = np.prod([dict(x for e in w.pool for x in w.dims(e).items())[l] for l in out] + [1.0])
    if size <= 3000 and len(out) <= 10 and w.pool:
        ops = []
        for e in w.pool:
            ops += [e['val'], [ids[l] for l in e['labels']]]
        want = M.contract_dense(ops, [ids[l] for l in out])
        ops2 = [np.abs(o) if isinstance(o, np.ndarray) else o for o in ops]
        sc = np.max(M.contract_dense(ops2, [ids[l] for l in out])) if want.size else 1.0
        res = contractTensorList([e['t'] for e in w.pool], outProductWarning=False)
        got = M.observe(mon, res, out, 'final contraction')
        mon.equal(got, want, 'final contraction; history {}'.format(w.hist), scale=max(sc, 1e-6, 1e-4 * float(np.prod([max(1.0, e['scale']) for e in w.pool]))), tol=1e-8)
        mon.event('final_contraction')


def merge_step(w, mon):
    saved = [(e, list(e['labels']), e['val']) for e in w.pool]
    r = w.op_merge()
    if r is None:
        return None
    _, a, b, shared, other = r
    old = {id(e): (l, v) for e, l, v in saved}
    import itertools
    ok = False
    for per in itertools.permutations(range(len(shared))):
        vals = []
        for e, ch in ((a, shared), (b, other)):
            l, v = old[id(e)]
            chp = [ch[i] for i in per]
            rest = [x for x in l if x not in ch]
            x = np.transpose(v, [l.index(y) for y in chp + rest])
            vals.append(x.reshape((-1,) + x.shape[len(ch):]))
        got = [np.array(e['t'].copy().toTensor(list(e['labels']))) for e in (a, b)]
        if all(g.shape == v.shape and np.allclose(g, v, rtol=1e-9, atol=1e-12 * max(1, np.abs(v).max(initial=0))) for g, v in zip(got, vals)):
            ok = True
            break
    mon.check(ok, lambda: 'merging bonds {}: no common order of the merged legs explains both tensors; history {}'.format(shared, w.hist), 'merge_explained')
    a['val'], b['val'] = vals
    return 'merge {}'.format(shared)


def short_history(rng, mon):
    run(rng, mon, int(rng.integers(4, 14)))


def long_history(rng, mon):
    run(rng, mon, int(rng.integers(30, 80)))


WORKLOADS = [
    ('short_history', short_history, 2500, 40000),
    ('long_history', long_history, 500, 10000),
]
REQUIRED_OBS = ['long_history.foreign_refused'] + ['long_history.' + o for o in ('op_link', 'op_contract', 'op_rename', 'op_move', 'op_out', 'op_sum', 'op_tag', 'op_copylist', 'op_copylinked', 'op_merge', 'op_refused', 'op_sub', 'op_rebuild')]
