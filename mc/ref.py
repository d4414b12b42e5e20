"""Reference models: the definitions of the documentation, in plain numpy."""
import numpy as np


def arr(W):
    return np.array(W, dtype=float)


def is_directed(W):
    return bool((W != W.T).any())


def dw(W):
    return (W.sum(0) + W.sum(1)) / 2


def deg(W):
    B = W != 0
    return (B.sum(0) + B.sum(1)) / 2


def laplacian(W, kind='combinatorial'):
    n = len(W)
    S = (W + W.T) / 2
    d = S.sum(1)
    if n > 30:
        if kind == 'combinatorial':
            return np.diag(d) - S
        r = np.array([1 / np.sqrt(v) if v > 0 else 0. for v in d])
        return np.diag((d > 0).astype(float)) - r[:, None] * S * r[None, :]
    L = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if kind == 'combinatorial':
                L[i, j] = (d[i] if i == j else 0) - S[i, j]
            elif d[i] > 0 and d[j] > 0:
                L[i, j] = (1 if i == j else 0) - S[i, j] / np.sqrt(d[i] * d[j])
    return L


def edges(W):
    """Set of (i, j, w): every stored arc if directed, i <= j otherwise."""
    n = len(W)
    D = is_directed(W)
    return sorted((i, j, float(W[i, j])) for i in range(n) for j in range(n)
                  if W[i, j] != 0 and (D or i <= j))


def reach(W):
    n = len(W)
    R = (W != 0) | np.eye(n, dtype=bool)
    for _ in range(n):
        S = R | ((R.astype(float) @ R.astype(float)) > 0.5)
        if (S == R).all():
            break
        R = S
    return R


def strongly_connected(W):
    return bool(reach(W).all())


def components(W):
    R = reach((W != 0) | (W != 0).T)
    seen, out = set(), []
    for i in range(len(W)):
        if i not in seen:
            c = [j for j in range(len(W)) if R[i, j]]
            seen |= set(c)
            out.append(c)
    return out


def eig(L):
    e, U = np.linalg.eigh(L)
    return e, U


def fun(L, f):
    """f(L) by eigendecomposition (unique whatever the eigenbasis)."""
    e, U = np.linalg.eigh(L)
    e = np.clip(e, 0, None)
    return (U * f(e)) @ U.T
