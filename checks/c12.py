"""C12  The predefined networks (cells, corners, edges, closings, environments, traces) compute their diagrams."""
import numpy as np
import model as M
from harness import Skip

ID = 'C12'
FACTOR = 1.5          # multiplies the case counts of both tiers
RULE = 'distinct (template, dimensions, leg orders, dtypes, diagonal flags) tuples'

# The diagrams, written out independently: tensor -> {leg: index}; output: leg -> indices (in order)
# Indices are letters; every letter that is not in an output is summed over.
DIAGRAMS = {
    # corner tensors of a triangle: leg 1 points outward, 2 and 3 go round the triangle
    'triangle': ({'u': '1a 2x 3y', 'l': '1b 2z 3x', 'r': '1c 2y 3z'}, {'1': 'a', '2': 'b', '3': 'c'}),
    # 2x2 cell of four square tensors
    'square': ({'ul': 'ua lb dx ry', 'ur': 'uc ly dz rd', 'dl': 'ux le df rw', 'dr': 'uz lw dg rh'},
               {'u': 'ac', 'l': 'be', 'd': 'fg', 'r': 'dh'}),
    # ring of four corner tensors, outer leg o
    'square_out': ({'ul': 'dx ry oa', 'ur': 'dz ly ob', 'dl': 'ux rw oc', 'dr': 'uz lw od'},
                   {'u': 'a', 'r': 'b', 'l': 'c', 'd': 'd'}),
    # half-row (p) with a tensor w above it
    'h_edge': ({'p': 'la rb ux', 'w': 'lc rd ue dx'}, {'l': 'ac', 'r': 'bd', 'u': 'e'}),
    # half-column (p) with a tensor w to its right
    'v_edge': ({'p': 'ua db rx', 'w': 'lx uc dd re'}, {'u': 'ac', 'd': 'bd', 'r': 'e'}),
    # lower left corner c with the row ph to its right, the column pv above it, and w in the corner
    'corner': ({'c': 'ux ry', 'ph': 'ly ra uz', 'pv': 'dx ub rw', 'w': 'lw dz uc rd'}, {'u': 'bc', 'r': 'ad'}),
    # projectors on both ends of a half-row / half-column
    'h_build': ({'p': 'lx ry ua', 'al': 'rx lb', 'ar': 'ry lc'}, {'l': 'b', 'r': 'c', 'u': 'a'}),
    'v_build': ({'p': 'dx uy ra', 'ad': 'ux db', 'au': 'uy dc'}, {'d': 'b', 'u': 'c', 'r': 'a'}),
    # four corners
    'even': ({'alu': 'ux ry', 'ald': 'ux rz', 'aru': 'uw ry', 'ard': 'uw rz'}, {}),
    # four corners, four edges, one centre
    'odd': ({'alu': 'ra ub', 'aru': 'rc ud', 'ald': 're uf', 'ard': 'rg uh', 'pu': 'la rc ui', 'pd': 'le rg uj',
             'pl': 'ub df rk', 'pr': 'ud dh rm', 'w': 'lk rm dj ui'}, {}),
    # row-pair environments: a 2x2 cell of (left, left mirrored), closed periodically in the other direction
    'h_env_l': ({'ul': 'dx ry uz la', 'ur': 'dw ry uz lb', 'dl': 'ux rp dq lc', 'dr': 'uw rp dq ld'}, {'l': 'ac', 'r': 'bd'}),
    'h_env_r': ({'ul': 'dx ly uz ra', 'ur': 'dw ly uz rb', 'dl': 'ux lp dq rc', 'dr': 'uw lp dq rd'}, {'l': 'ac', 'r': 'bd'}),
    'v_env_u': ({'ul': 'dx ry lz ua', 'dl': 'dx rp lz ub', 'ur': 'ly dw rq uc', 'dr': 'lp dw rq ud'}, {'u': 'ac', 'd': 'bd'}),
    'v_env_d': ({'ul': 'ux ry lz da', 'dl': 'ux rp lz db', 'ur': 'ly uw rq dc', 'dr': 'lp uw rq dd'}, {'u': 'ac', 'd': 'bd'}),
    # two square tensors one above the other between two projectors (outer leg o), and side by side
    'hotrg_h': ({'u': 'lx ry ua dz', 'd': 'lw rv uz db', 'l': 'ux dw oc', 'r': 'uy dv od'}, {'l': 'c', 'r': 'd', 'u': 'a', 'd': 'b'}),
    'hotrg_v': ({'l': 'ux dy la rz', 'r': 'uw dv lz rb', 'u': 'lx rw oc', 'd': 'ly rv od'}, {'u': 'c', 'd': 'd', 'l': 'a', 'r': 'b'}),
    # Evenbly's TNR: isometry on a corner, ring of four, two rings, environment of the half-isometries
    'tnr_qa': ({'q': 'hx vy oa', 'A': 'lx uy rb dc'}, {'o': 'a', 'h': 'b', 'v': 'c'}),
    'tnr_c': ({'ul': 'hx vy oa', 'ur': 'hx vz ob', 'dl': 'hw vy oc', 'dr': 'hw vz od'}, {'ul': 'a', 'ur': 'b', 'dl': 'c', 'dr': 'd'}),
    'tnr_cc': ({'u': 'ula urb dlx dry', 'd': 'ulc urd dlx dry'}, {'ul': 'a', 'ur': 'b', 'dl': 'c', 'dr': 'd'}),
    'tnr_env': ({'CC': 'ula urb dlx dry', 'ql': 'hp vq ox', 'qr': 'hr vs oy', 'u': 'orq ols iru ilv', 'yl': 'hp vu oc', 'yr': 'hr vv od'},
                {'ul': 'a', 'ur': 'b', 'dl': 'c', 'dr': 'd'}),
}
TNR = {'tnr_qa': 'createQxAFTN', 'tnr_c': 'createCFTN', 'tnr_cc': 'createCCFTN', 'tnr_env': 'createSCEnvSFTN'}
NAME = {'triangle': 'triangleContractFTN', 'square': 'squareContractFTN', 'square_out': 'squareContractOutFTN',
        'h_edge': 'CTMRGHEdgeExtendFTN', 'v_edge': 'CTMRGVEdgeExtendFTN', 'corner': 'CTMRGCornerExtendFTN',
        'h_build': 'CTMRGHEdgeBuildFTN', 'v_build': 'CTMRGVEdgeBuildFTN', 'even': 'CTMRGEvenZFTN', 'odd': 'CTMRGOddFTN',
        'hotrg_h': 'HOTRGHorizontalContractFTN', 'hotrg_v': 'HOTRGVerticalContractFTN'}


def template(kind):
    import CTL.tensor.contract.contractExp as E
    if kind in NAME:
        return getattr(E, NAME[kind])()
    if kind in TNR:
        import CTL.examples.TNR as T                # imports ncon, which lib/ncon.py stands in for
        return getattr(T, TNR[kind])()
    return {'h': E.squareHorizontalContractFTN, 'v': E.squareVerticalContractFTN}[kind[0]](kind[-1])


def parse(kind):
    tens, out = DIAGRAMS[kind]
    return {n: [(x[:-1], x[-1]) for x in s.split()] for n, s in tens.items()}, out


def diagrams(rng, mon):
    kind = list(DIAGRAMS)[int(rng.integers(len(DIAGRAMS)))]
    f = template(kind)
    tens, out = parse(kind)
    letters = sorted(set(i for l in tens.values() for _, i in l))
    # legs of the given tensors named differently, translated by the network
    own = {(n, l): l for n in tens for l, _ in tens[n]}
    if rng.random() < 0.4:
        for q, (n, l) in enumerate(own):
            if rng.random() < 0.5:
                own[(n, l)] = 'x{}{}'.format(q, l)
                f.addPreNameChange(n, own[(n, l)], l)
                mon.event('renamed_leg')
    for use in range(int(rng.integers(1, 4))):
        uniform = rng.random() < 0.3
        c = int(rng.integers(1, 4))
        dims = {i: c if uniform else int(rng.integers(1, 4)) for i in letters}
        ts, ops, sig = {}, {}, []
        k = M.pick_kind(rng)
        diag_ok = uniform
        for n in tens:
            order = [tens[n][i] for i in rng.permutation(len(tens[n]))]
            labs = [own[(n, x)] for x, _ in order]
            sh = [dims[i] for _, i in order]
            # (an all-diagonal network has a diagonal result, whose legs cannot be combined: refused by design)
            last = n == list(tens)[-1] and any(len(x) > 1 for x in out.values())
            if diag_ok and rng.random() < 0.3 and not (last and all(t.diagonalFlag for t in ts.values())):
                from CTL.tensor.diagonalTensor import DiagonalTensor
                v = np.array(M.rdata(rng, (c,), k))
                ts[n] = DiagonalTensor(data=v, labels=list(labs), shape=tuple(sh))
                a = M.dense_of_diag(v, len(labs))
            else:
                from CTL.tensor.tensor import Tensor
                a = np.array(M.rdata(rng, sh, k))
                ts[n] = Tensor(data=np.array(a), labels=list(labs))
            ops[n] = (a.astype(float) if a.dtype.kind == 'i' else a, [letters.index(i) for _, i in order])
            sig.append((n, labs, sh, ts[n].diagonalFlag))
        mon.note(kind + ' use {}'.format(use), sig)
        mon.event(kind)
        olabs = list(out)
        flat = [letters.index(i) for l in olabs for i in out[l]]
        args, aargs = [], []
        for n in ops:
            args += list(ops[n])
            aargs += [np.abs(ops[n][0]), ops[n][1]]
        want = M.contract_dense(args, flat)
        sc = np.max(M.contract_dense(aargs, flat))
        want = want.reshape([int(np.prod([dims[i] for i in out[l]])) for l in olabs])
        before = M.snapshot(list(ts.values()))
        res = f.contract(dict(ts))
        got = M.observe(mon, res, olabs, kind)
        mon.equal(got, want, '{} {}'.format(kind, sig), scale=sc)
        M.same_snapshot(mon, before, list(ts.values()), kind)


def cells(rng, mon):
    """cells made of one or two tensors with the helper functions"""
    import CTL.tensor.contract.contractExp as E
    from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor, makeSquareOutTensor
    k = M.pick_kind(rng)
    c, d = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kind = int(rng.integers(6))
    mon.note('cell {} dims {} {}'.format(kind, c, d), k, float(rng.random()))
    if kind == 0:
        a = np.array(M.rdata(rng, (d, c, c), k))
        t = makeTriangleTensor(np.array(a))
        mon.check(list(t.labels) == ['1', '2', '3'], 'labels {}'.format(t.labels), 'labels_compared')
        res = E.triangleContractFTN().contract(E.makeTriangleTensorDict(t))
        # u(a,x,y) l(b,z,x) r(c,y,z)
        want = np.einsum('axy,bzx,cyz->abc', a, a, a)
        mon.equal(M.observe(mon, res, ['1', '2', '3'], 'triangle'), want, 'triangle of one tensor', scale=np.einsum('axy,bzx,cyz->abc', *[np.abs(a)] * 3).max())
        mon.event('triangle_cell')
    elif kind == 1:
        a = np.array(M.rdata(rng, (c, d, c, d), k))
        two = rng.random() < 0.5
        b = np.array(M.rdata(rng, (c, d, c, d), k)) if two else a
        t = makeSquareTensor(np.array(a))
        mon.check(list(t.labels) == ['u', 'l', 'd', 'r'], 'labels {}'.format(t.labels), 'labels_compared')
        td = E.makeSquareTensorDict(t, makeSquareTensor(np.array(b))) if two else E.makeSquareTensorDict(t)
        res = E.squareContractFTN().contract(td)
        # ul=a, ur=b, dl=b, dr=a; axes u,l,d,r
        want = np.einsum('abxy,cyzd,xefw,zwgh->acbefgdh', a, b, b, a).reshape(c * c, d * d, c * c, d * d)
        sc = np.einsum('abxy,cyzd,xefw,zwgh->acbefgdh', *[np.abs(x) for x in (a, b, b, a)]).max()
        mon.equal(M.observe(mon, res, ['u', 'l', 'd', 'r'], 'square'), want, 'square of {} tensors'.format(1 + two), scale=sc)
        mon.event('square_cell')
    elif kind == 2:
        dims = [int(rng.integers(1, 4)) for _ in range(8)]
        x, y, z, w, o1, o2, o3, o4 = dims
        locs = {'ul': (x, y, o1), 'ur': (z, y, o2), 'dl': (x, w, o3), 'dr': (z, w, o4)}
        arr = {n: np.array(M.rdata(rng, s, k)) for n, s in locs.items()}
        ts = {n: makeSquareOutTensor(np.array(arr[n]), n) for n in locs}
        res = E.squareContractOutFTN().contract(ts)
        op = 'xya,zyb,xwc,zwd->abcd'
        want = np.einsum(op, arr['ul'], arr['ur'], arr['dl'], arr['dr'])
        sc = np.einsum(op, *[np.abs(arr[n]) for n in ('ul', 'ur', 'dl', 'dr')]).max()
        mon.equal(M.observe(mon, res, ['u', 'r', 'l', 'd'], 'outward square'), want, 'square of outward tensors', scale=sc)
        mon.raises(AssertionError, lambda: makeSquareOutTensor(arr['ul'], 'lu'), 'unknown corner')
        mon.raises(AssertionError, lambda: E.squareHorizontalContractFTN('u'), 'wrong direction')
        mon.raises(AssertionError, lambda: E.squareVerticalContractFTN('l'), 'wrong direction')
        mon.raises(AssertionError, lambda: makeSquareTensor(arr['ul']), 'rank 3 data for a square tensor')
        mon.raises(AssertionError, lambda: makeTriangleTensor(np.ones((2, 2))), 'rank 2 data for a triangle tensor')
        mon.event('outward_cell')
    elif kind == 3:
        from CTL.tensor.tensor import Tensor
        sh = [int(rng.integers(1, 4)) for _ in range(5)]
        more = int(rng.integers(0, 3))          # additional legs stay
        a = np.array(M.rdata(rng, sh[:3] + ([sh[3]] if more > 0 else []), k))
        b = np.array(M.rdata(rng, sh[:3] + ([sh[4]] if more > 1 else []), k))
        la, lb = ['1', '2', '3'] + (['p'] if more > 0 else []), ['1', '2', '3'] + (['q'] if more > 1 else [])
        pa, pb = rng.permutation(len(la)), rng.permutation(len(lb))
        A = Tensor(data=np.transpose(a, pa), labels=[la[i] for i in pa])
        B = Tensor(data=np.transpose(b, pb), labels=[lb[i] for i in pb])
        before = M.snapshot([A, B])
        res = E.triangleTensorTrace(A, B)
        outl = la[3:] + lb[3:]
        ein = [a, [0, 1, 2] + ([3] if more > 0 else []), b, [0, 1, 2] + ([4] if more > 1 else []), [3] * (more > 0) + [4] * (more > 1)]
        want = np.einsum(*ein)
        if outl:
            got = M.observe(mon, res, outl, 'triangle trace')
        else:
            got = res.single()
        mon.equal(got, want, 'triangle trace', scale=np.einsum(np.abs(a), ein[1], np.abs(b), ein[3], ein[4]).max())
        M.same_snapshot(mon, before, [A, B], 'triangle trace')
        mon.event('triangle_trace')
    elif kind == 4:
        from CTL.tensor.tensor import Tensor
        a = np.array(M.rdata(rng, (c, d, c, d), k))
        p = rng.permutation(4)
        A = Tensor(data=np.transpose(a, p), labels=['uldr'[i] for i in p])
        before = M.snapshot([A])
        got = E.squareTrace(A)
        mon.equal(got, np.einsum('abab->', a), 'square trace', scale=np.abs(a).sum())
        M.same_snapshot(mon, before, [A], 'square trace')
        mon.event('square_trace')
    else:
        s = M.gen_network(rng, 1, p_diag=0.3, p_free=0.7, max_dim=4, kind=k)
        A = M.build(rng, s)[0]
        v = s.value()
        got = E.selfTrace(A)
        mon.check(got.dim == 0, 'trace with itself has legs', 'self_trace')
        mon.equal(got.single(), (v * v).sum(), 'trace with itself of ' + s.describe(), scale=(np.abs(v) ** 2).sum())


def evenbly_env(rng, mon):
    """the environment of the Evenbly TNR: eight tensors closed around two open corners"""
    import CTL.tensor.contract.contractExp as E
    from CTL.tensor.tensor import Tensor
    d = {i: int(rng.integers(1, 3)) for i in 'abcdefghijklmnopqrst'}
    tens = {
        'uul': 'la ub rc dd', 'uur': 'lg ui dk rc', 'udl': 'rm dn lo ud', 'udr': 'rp dq lo uk',
        'dul': 'rm dn lr us', 'dur': 'rp dq lr ut', 'ddl': 'le uf rh ds', 'ddr': 'lg ui rh dt',
    }
    k = M.pick_kind(rng)
    ts, ops = {}, []
    for n in tens:
        order = [tens[n].split()[i] for i in rng.permutation(4)]
        a = np.array(M.rdata(rng, [d[x[1]] for x in order], k))
        ts[n] = Tensor(data=np.array(a), labels=[x[0] for x in order])
        ops += [a.astype(float) if a.dtype.kind == 'i' else a, [ord(x[1]) - 97 for x in order]]
    out = [ord(x) - 97 for x in 'abef']
    want = M.contract_dense(ops, out)
    sc = np.max(M.contract_dense([np.abs(o) if i % 2 == 0 else o for i, o in enumerate(ops)], out))
    want = want.reshape(d['a'] * d['b'], d['e'] * d['f'])
    mon.note('environment of eight tensors', sorted(d.items()), k)
    res = E.EvenblyTNRQEnvFTN().contract(ts)
    mon.equal(M.observe(mon, res, ['1', '2'], 'environment'), want, 'environment', scale=sc)


WORKLOADS = [
    ('diagrams', diagrams, 5000, 75000),
    ('cells', cells, 4000, 60000),
    ('evenbly_env', evenbly_env, 400, 4000),
]
REQUIRED_OBS = ['diagrams.renamed_leg'] + ['diagrams.' + k for k in DIAGRAMS] + ['cells.' + k for k in
    ('triangle_cell', 'square_cell', 'outward_cell', 'triangle_trace', 'square_trace', 'self_trace')]
