"""Reference performance bounds, from first principles.

CRBs: the Slepian-Bangs formula with every nuisance parameter spelled out.
Error covariances: first-order perturbation of the (coarray) MUSIC estimate
under the Wishart covariance of the sample covariance matrix.
"""
import numpy as np



def ld(X):
    return np.asarray(X).astype(np.clongdouble if np.iscomplexobj(X) else np.longdouble)


def inv_ld(X):
    """Gauss-Jordan inverse in extended precision (numpy's is double only)."""
    X = ld(X)
    n = len(X)
    Y = np.hstack([X, np.eye(n, dtype=X.dtype)])
    for i in range(n):
        j = i + int(np.argmax(np.abs(Y[i:, i])))
        if j != i:
            Y[[i, j]] = Y[[j, i]]
        Y[i] = Y[i] / Y[i, i]
        f = Y[:, i].copy()
        f[i] = 0
        Y = Y - np.outer(f, Y[i])
    return Y[:, n:]


def fim_gaussian(R, dR):
    """Slepian-Bangs FIM of a zero-mean complex Gaussian model, per snapshot."""
    Ri = inv_ld(R)
    X = [Ri @ ld(d) for d in dR]
    n = len(X)
    F = np.zeros((n, n), dtype=np.longdouble)
    for i in range(n):
        for j in range(i, n):
            F[i, j] = F[j, i] = np.sum(X[i] * X[j].T).real
    return F


EPS = np.finfo(float).eps


def invert_scaled(F, amp=1.0):
    """Inverse of a FIM, or None when double precision arithmetic cannot be
    trusted with it. amp: how much the FIM itself amplifies rounding errors.
    Implementations may differ by the returned tolerance (relative)."""
    s = 1.0 / np.sqrt(np.maximum(np.diag(F), 1e-300))
    G = F * np.outer(s, s)
    c = np.linalg.cond(G.astype(float))
    tol = 100 * EPS * c * amp
    if not tol < 1e-3:
        return None
    return inv_ld(G) * np.outer(s, s), max(1e-5, float(tol))


def out(C, k, scale):
    return None if C is None else ((C[0][:k, :k] * scale).astype(float), C[1])


def d_theta(A, D, P):
    """Derivatives of A P A^H with respect to each location."""
    out = []
    for i in range(A.shape[1]):
        # d/dt_i (A P A^H) = d_i (P[i] A^H) + (..)^H
        X = np.outer(D[:, i], P[i] @ A.conj().T)
        out.append(X + X.conj().T)
    return out


def crb_sto(A, D, P, sigma, n):
    m, k = A.shape
    R = A @ P @ A.conj().T + sigma * np.eye(m)
    dR = d_theta(A, D, P)
    for i in range(k):
        dR.append(np.outer(A[:, i], A[:, i].conj()))
        for j in range(i):
            X = np.outer(A[:, i], A[:, j].conj())
            dR.append(X + X.conj().T)
            dR.append(1j * (X - X.conj().T))
    dR.append(np.eye(m, dtype=complex))
    return out(invert_scaled(fim_gaussian(R, dR), np.linalg.cond(R)), k, 1.0 / n)


def crb_stouc(A, D, p, sigma, n):
    m, k = A.shape
    R = (A * p) @ A.conj().T + sigma * np.eye(m)
    dR = d_theta(A, D, np.diag(p).astype(complex))
    for i in range(k):
        dR.append(np.outer(A[:, i], A[:, i].conj()))
    dR.append(np.eye(m, dtype=complex))
    # A^H R^-1 A is small against R^-1: the error of the inverse counts twice.
    return out(invert_scaled(fim_gaussian(R, dR), np.linalg.cond(R) ** 2), k, 1.0 / n)


def crb_det(A, D, P, sigma, n):
    """FIM of the mean A s(t) for k snapshots whose sample covariance is P."""
    m, k = A.shape
    w, V = np.linalg.eigh(0.5 * (P + P.conj().T))
    S = (V * np.sqrt(np.maximum(w, 0.0) * k))          # S S^H / k = P
    J = []
    for i in range(k):
        J.append(np.concatenate([D[:, i] * S[i, t] for t in range(k)]))
    for t in range(k):
        for i in range(k):
            for f in (1.0, 1j):
                x = np.zeros((k, m), dtype=complex)
                x[t] = f * A[:, i]
                J.append(x.reshape(-1))
    J = ld(np.array(J).T)
    F = 2.0 / sigma * (J.conj().T @ J).real
    return out(invert_scaled(F), k, k / n)


def ecov_from(G, R, n):
    k = len(G)
    X = [g @ R for g in G]
    C = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            C[i, j] = np.trace(X[i] @ X[j]).real / n
    return C


def vectors_tol(A, D, P, g):
    return float(100 * EPS * np.linalg.cond(A) ** 2 * np.linalg.cond(P) *
                 np.max(np.sum(np.abs(D) ** 2, axis=0) / g))


def music_vectors(A, D, P):
    Q, _ = np.linalg.qr(A)
    N = np.eye(len(A)) - Q @ Q.conj().T
    W = np.linalg.pinv(A).conj().T @ np.linalg.inv(P)
    U = N @ D
    g = np.sum(np.abs(U) ** 2, axis=0)
    return U, W, g


def ecov_music(A, D, P, sigma, n):
    R = A @ P @ A.conj().T + sigma * np.eye(len(A))
    if np.linalg.cond(A) > 1e3 or np.linalg.cond(P) > 1e4:
        return None
    U, W, g = music_vectors(A, D, P)
    tol = vectors_tol(A, D, P, g) + 100 * EPS * np.linalg.cond(R) * np.linalg.cond(A)
    if not tol < 1e-3:
        return None
    G = []
    for k in range(A.shape[1]):
        M = np.outer(U[:, k].conj(), W[:, k]) / g[k]   # sum_ij M_ij dR_ij
        G.append(0.5 * (M.T + M.conj()))
    return ecov_from(G, R, n), max(1e-5, tol)


def ecov_coarray(idx, A, p, sigma, n, omega, dscale):
    """idx: integer sensor positions; omega: electrical angle of each source per
    unit of idx; dscale: its derivative with respect to the location."""
    idx = np.asarray(idx)
    R = (A * p) @ A.conj().T + sigma * np.eye(len(idx))
    diff = idx[:, None] - idx[None, :]
    have = {}
    for d in diff.reshape(-1):
        have[int(d)] = have.get(int(d), 0) + 1
    mv = 0
    while mv in have:
        mv += 1
    n_ = np.arange(mv)
    Av = np.exp(1j * np.outer(n_, omega))
    Dv = Av * (1j * np.outer(n_, dscale))
    if Av.shape[1] >= mv or np.linalg.cond(Av) > 1e3:
        return None
    U, W, g = music_vectors(Av, Dv, np.diag(p).astype(complex))
    tol = vectors_tol(Av, Dv, np.diag(p).astype(complex), g)
    if not tol < 1e-3:
        return None
    G = []
    for k in range(Av.shape[1]):
        c = {}
        for a in range(mv):
            for b in range(mv):
                c[a - b] = c.get(a - b, 0) + U[a, k].conj() * W[b, k]
        M = np.zeros(R.shape, dtype=complex)
        for i in range(len(idx)):
            for j in range(len(idx)):
                d = int(diff[i, j])
                if d in c:
                    M[i, j] = c[d] / have[d]
        M = M / g[k]
        G.append(0.5 * (M.T + M.conj()))
    return ecov_from(G, R, n), max(1e-5, tol)


def virtual_size(idx):
    have = {int(a - b) for a in idx for b in idx}
    mv = 0
    while mv in have:
        mv += 1
    return mv


def reduce(C, mode):
    if mode == 'full':
        return C
    d = np.array([C[i, i] for i in range(len(C))])
    return d if mode == 'diag' else float(sum(d) / len(d))


def p_matrix(p, k):
    """Any accepted way of giving the powers, as a matrix."""
    if np.ndim(p) == 0:
        return complex(p) * np.eye(k)
    p = np.asarray(p)
    return np.diag(p).astype(complex) if p.ndim == 1 else p.astype(complex)


