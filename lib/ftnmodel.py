"""Independent model of finite tensor networks: names, links, renamings and combined legs."""
import numpy as np
import model as M


class Model:
    def __init__(self, names=()):
        self.names = list(names)
        self.links = []        # ((name, leg), (name, leg)) with the leg names after pre-renaming
        self.pre = []          # (name, old, new), applied in order, each to the first leg of that name
        self.post = []
        self.out = []          # ([(name, leg), ...], new)

    def tensor_legs(self, tensors):
        """leg names of every tensor after the pre-renamings"""
        legs = {n: list(tensors[n][0]) for n in self.names}
        for n, old, new in self.pre:
            legs[n] = [new if x == old else x for x in legs[n]]
        return legs

    def value(self, tensors):
        """tensors: name -> (labels, dense array).  -> (labels with tags, dense array)"""
        legs = self.tensor_legs(tensors)
        idx = {}
        k = 0
        for (a, x), (b, y) in self.links:
            idx[(a, x)] = idx[(b, y)] = k
            k += 1
        free = []
        for n in self.names:
            for x in legs[n]:
                if (n, x) not in idx:
                    idx[(n, x)] = k
                    free.append((n, x))
                    k += 1
        ops = []
        for n in self.names:
            a = np.asarray(tensors[n][1])
            ops += [a.astype(float) if a.dtype.kind in 'iub' else a, [idx[(n, x)] for x in legs[n]]]
        val = M.contract_dense(ops, [idx[f] for f in free])
        absval = M.contract_dense([np.abs(o) if i % 2 == 0 else o for i, o in enumerate(ops)], [idx[f] for f in free])
        scale = float(np.max(absval)) if absval.size else 1.0
        labels = ['{}-{}'.format(*f) for f in free]
        for group, new in self.out:
            g = ['{}-{}'.format(*x) for x in group]
            pos = [labels.index(x) for x in g]
            restp = [i for i in range(len(labels)) if i not in pos]
            val = np.transpose(val, pos + restp)
            val = val.reshape((-1,) + val.shape[len(pos):]) if restp else val.reshape(-1)
            labels = ['res-' + new] + [labels[i] for i in restp]
        for n, old, new in self.post:
            o = n + '-' + old
            if o in labels:
                labels[labels.index(o)] = n + '-' + new
        return labels, val, scale


def untag(labels):
    return [x.split('-', 1)[1] if '-' in x else x for x in labels]


def compare(mon, res, labels, val, scale, msg, tags):
    lab = list(labels) if tags else untag(labels)
    mon.check(sorted(res.labels) == sorted(lab), lambda: '{}: legs {} but {} were expected'.format(msg, res.labels, lab), 'labels_compared')
    if len(set(lab)) == len(lab):
        mon.equal(np.array(res.toTensor(list(lab))), val, msg, scale=scale)
