"""Stand-in for the optional package `ncon`, which CTL.examples.TNR needs and which is not installed:
contract positive indices, order the open ones -1, -2, ..."""
import numpy as np


def ncon(tensors, indices):
    names, args = {}, []
    for t, idx in zip(tensors, indices):
        args += [np.asarray(t), [names.setdefault(k, len(names)) for k in idx]]
    out = sorted((k for idx in indices for k in idx if k < 0), reverse=True)
    return np.einsum(*args, [names[k] for k in out], optimize='greedy')
