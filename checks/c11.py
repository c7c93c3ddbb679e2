"""C11  Editing a finite tensor network: every later contraction is that of the edited network, and a used network is locked."""
import numpy as np
import model as M
import ftnmodel as F

ID = 'C11'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct edit histories'


def described(f):
    return [repr(getattr(f, k, None)) for k in ('tensorNames', 'links', 'changeNameBefore', 'changeNameAfter', 'outProductAfter', 'locked')]


def history(rng, mon):
    from CTL.tensor.tensor import Tensor
    from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
    real = bool(rng.random() < 0.6)
    start = ['a', 'b'] if rng.random() < 0.5 else []
    given = list(start)
    f = FiniteTensorNetwork(given, realCost=real) if start or rng.random() < 0.5 else FiniteTensorNetwork(realCost=real)
    g = FiniteTensorNetwork(given) if start else FiniteTensorNetwork()     # must stay as it is
    m = F.Model(start)
    legs = {}          # name -> list of (label, dim) of the tensors to be supplied
    data = {}
    locked = False
    hist = []
    used = 0

    def supply(name):
        if name not in legs:
            r = int(rng.integers(1, 5))
            legs[name] = [(M.NAMES[i], int(rng.integers(1, 4))) for i in rng.permutation(len(M.NAMES))[:r]]
            data[name] = rng.standard_normal([d for _, d in legs[name]])
    for x in start:
        supply(x)

    def current(pre=None):
        """leg name after pre renaming -> (original label, dim)"""
        out = {}
        for x in m.names:
            names = [l for l, _ in legs[x]]
            for nm, old, new in (m.pre if pre is None else pre):
                if nm == x:
                    names = [new if z == old else z for z in names]
            for z, (_, d) in zip(names, legs[x]):
                out[(x, z)] = d
        return out

    def linked():
        return [z for l in m.links for z in l]

    def attempt(fn, apply, what):
        """an edit: refused while locked, done otherwise"""
        if locked:
            state = described(f)
            mon.raises(AssertionError, fn, what + ' of a locked network')
            mon.check(state == described(f),
                      what + ' was refused but changed the network', 'refused_unchanged')
            hist.append('!' + what)
        else:
            fn()
            apply()
            hist.append(what)

    for step in range(int(rng.integers(4, 22))):
        op = int(rng.integers(16))
        cur = current()
        free = [z for z in cur if z not in linked()]
        usable = [z for z in free if z not in [y for grp, _ in m.out for y in grp] and z not in [(a, b) for a, b, _ in m.post]]
        if op == 0 and len(m.names) < 5:
            nm = 't{}'.format(len(legs))
            supply(nm)
            attempt(lambda: f.addTensor(nm), lambda: m.names.append(nm), 'add')
        elif op == 1 and m.names:
            busy = [z[0] for z in linked()] + [a for a, _, _ in m.pre + m.post] + [y[0] for grp, _ in m.out for y in grp]
            c = [x for x in m.names if x not in busy]
            if c and len(m.names) > 1:
                nm = c[int(rng.integers(len(c)))]
                attempt(lambda: f.removeTensor(nm), lambda: m.names.remove(nm), 'remove')
        elif op == 2 and not locked:
            mon.raises(AssertionError, lambda: f.removeTensor('no such tensor'), 'removing an unknown tensor')
        elif op in (3, 4, 5) and len(usable) > 1:
            pairs = [(x, y) for x in usable for y in usable if x[0] != y[0] and cur[x] == cur[y]]
            if pairs:
                x, y = pairs[int(rng.integers(len(pairs)))]
                attempt(lambda: f.addLink(x[0], x[1], y[0], y[1]), lambda: m.links.append((x, y)), 'link')
        elif op == 6 and usable:
            x = usable[int(rng.integers(len(usable)))]
            nn = 'p{}'.format(step)
            attempt(lambda: f.addPreNameChange(x[0], x[1], nn), lambda: m.pre.append((x[0], x[1], nn)), 'pre')
        elif op == 7 and usable:
            x = usable[int(rng.integers(len(usable)))]
            nn = str(rng.choice(['q{}', 'q-{}'])).format(step)
            attempt(lambda: f.addPostNameChange(x[0], x[1], nn), lambda: m.post.append((x[0], x[1], nn)), 'post')
        elif op == 8 and m.pre:
            # only renamings whose new name is not used elsewhere can be withdrawn
            busy = linked() + [y for grp, _ in m.out for y in grp] + [(a, b) for a, b, _ in m.post if a != 'res']
            c = []
            for z in m.pre:
                after = list(m.pre)
                after.remove(z)
                after = current(after)
                if len(after) == len(cur) and all(y in after for y in busy):
                    c.append(z)
            if c:
                z = c[int(rng.integers(len(c)))]
                if sum(y[:2] == z[:2] for y in m.pre) > 1:
                    mon.event('withdrew_one_of_several')
                attempt(lambda: f.removePreNameChange(*z), lambda: m.pre.remove(z), 'unpre')
        elif op == 9 and m.post:
            c = [z for z in m.post if z[0] != 'res']
            if c:
                z = c[int(rng.integers(len(c)))]
                attempt(lambda: f.removePostNameChange(*z), lambda: m.post.remove(z), 'unpost')
        elif op == 10 and len(usable) > 1 and len(m.out) < 2:
            grp = [usable[i] for i in rng.permutation(len(usable))[:int(rng.integers(1, 3))]]
            nn = str(rng.choice(['o{}', 'o-{}'])).format(step)
            given_group = list(grp)
            attempt(lambda: f.addPostOutProduct(given_group, nn), lambda: m.out.append((grp, nn)), 'out')
            del given_group[:]           # the list stays the caller's
        elif op == 14 and m.pre:
            # a renaming whose leg has been renamed before: no leg has that name any more, nothing happens
            x = m.pre[int(rng.integers(len(m.pre)))]
            if (x[0], x[1]) not in cur:
                nn = 'p{}'.format(step)
                attempt(lambda: f.addPreNameChange(x[0], x[1], nn), lambda: m.pre.append((x[0], x[1], nn)), 'pre again')
        elif op == 15 and not locked:
            # withdrawing what was never there is refused
            some = [z for z in m.pre + m.post] + [('a', 'x', 'y')]
            z = some[int(rng.integers(len(some)))]
            z = [(z[0], z[1], 'other'), (z[0], 'other', z[2]), ('other', z[1], z[2])][int(rng.integers(3))]
            fn = [f.removePreNameChange, f.removePostNameChange][int(rng.integers(2))]
            mon.raises(Exception, lambda: fn(*z), 'withdrawing a renaming that is not there')
            mon.event('unknown_refused')
            hist.append('!unknown')
        elif op == 11:
            if rng.random() < 0.3:
                f.lock()
                locked = True
                hist.append('lock')
            else:
                f.unlock()
                locked = False
                hist.append('unlock')
        elif m.names:
            size = np.prod([float(cur[z]) for z in free] + [1])
            if size > 20000:
                continue
            ts = {x: Tensor(data=np.array(data[x]), labels=[l for l, _ in legs[x]]) for x in m.names}
            md = {x: ([l for l, _ in legs[x]], data[x]) for x in m.names}
            before = M.snapshot(list(ts.values()))
            tags = bool(rng.random() < 0.5)
            labels, val, scale = m.value(md)
            hist.append('contract')
            mon.note(' '.join(hist), m.links, m.pre, m.post, m.out)
            res = f.contract(ts, removeTensorTag=not tags)
            F.compare(mon, res, labels, val, scale, 'after ' + ' '.join(hist), tags)
            M.same_snapshot(mon, before, list(ts.values()), 'contract')
            locked = True
            used += 1
            if used > 1 and hist[-2] != 'contract':
                mon.event('contracted_after_edit')
            if rng.random() < 0.6:
                f.unlock()
                locked = False
                hist.append('unlock')
            if rng.random() < 0.3:
                # other tensors (and dimensions) for the same names, from now on
                ren = {}
                for a in list(legs):
                    for l, d in legs[a]:
                        ren[(a, l)] = d
                root = {}
                cur2 = current()
                # links must keep joining equal dimensions
                group = {z: z for z in cur2}

                def find(z):
                    while group[z] != z:
                        z = group[z]
                    return z
                for a, b in m.links:
                    group[find(a)] = find(b)
                dims = {}
                for z in cur2:
                    dims.setdefault(find(z), int(rng.integers(1, 4)))
                for x in m.names:
                    zs = [z for z in cur2 if z[0] == x]
                    legs[x] = [(l, dims[find(z)]) for (l, _), z in zip(legs[x], zs)]
                    data[x] = rng.standard_normal([d for _, d in legs[x]])
                hist.append('newdims')
        mon.check(f.tensorCount == len(m.names), 'tensorCount {} after {}'.format(f.tensorCount, ' '.join(hist)), 'count')
        mon.check(sorted(f.tensorNames) == sorted(m.names), 'tensor names', 'count')
        mon.check(bool(f.locked) == locked, 'lock state after ' + ' '.join(hist), 'lock_state')
    mon.note(' '.join(hist), m.links, m.pre, m.post, m.out)
    mon.check(list(g.tensorNames) == start and given == start, 'editing one network changed another one (or the list it was made from)', 'independent')
    if start:
        ts = {x: Tensor(data=np.array(data[x]), labels=[l for l, _ in legs[x]]) for x in start}
        m2 = F.Model(start)
        labels, val, scale = m2.value({x: ([l for l, _ in legs[x]], data[x]) for x in start})
        F.compare(mon, g.contract(ts, removeTensorTag=False), labels, val, scale, 'untouched network', True)


def predefined(rng, mon):
    """A predefined network is made anew on every request: using or editing one leaves the others alone."""
    import CTL.tensor.contract.contractExp as X
    factories = [n for n in dir(X) if n.endswith('FTN') and callable(getattr(X, n)) and n[0].islower() or n.startswith('CTMRG') or n.startswith('HOTRG') or n.startswith('Evenbly')]
    name = factories[int(rng.integers(len(factories)))]
    args = [str(rng.choice(['l', 'r']))] if 'squareHorizontal' in name else [str(rng.choice(['u', 'd']))] if 'squareVertical' in name else []
    make = lambda: getattr(X, name)(*args)

    nets = [make() for _ in range(2)]
    want = described(nets[0])
    mon.check(described(nets[1]) == want, 'two networks {} differ'.format(name), 'independent')
    mon.check(not nets[0].locked, 'a new network {} is in use'.format(name), 'independent')
    did = []
    for _ in range(int(rng.integers(1, 5))):
        f = nets[0]
        x = f.tensorNames[int(rng.integers(f.tensorCount))]
        op = int(rng.integers(6))
        did.append(op)
        if op == 0:
            f.addTensor('extra{}'.format(len(did)))
        elif op == 1:
            f.addPreNameChange(x, 'old', 'new')
        elif op == 2:
            f.addPostNameChange(x, 'old', 'new')
        elif op == 3:
            f.addPostOutProduct([x + '-p', x + '-q'], 'pq')
        elif op == 4:
            f.addLink(x, 'p', x, 'q')
        else:
            f.lock()
            f.unlock()
    if rng.random() < 0.5:
        f.lock()
    mon.note(name + str(args), name, tuple(args), tuple(did))
    mon.event('edited')
    nets.append(make())
    for i, f in enumerate(nets[1:]):
        mon.check(described(f) == want, 'editing one network {} changed another one (made {} the edit)'.format(name, ['before', 'after'][i]), 'independent')


WORKLOADS = [('history', history, 8000, 120000), ('predefined', predefined, 300, 3000)]
REQUIRED_OBS = ['history.contracted_after_edit', 'history.rejection_observed', 'history.refused_unchanged', 'history.unknown_refused',
                'history.withdrew_one_of_several']
