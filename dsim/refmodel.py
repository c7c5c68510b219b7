"""
Small dense reference model of what the tools are supposed to compute, written without the repository's code.

Networks are the JSON-able ones of envs.gen_net / gen_net3.
"""
import numpy as np

A = np.exp(2j * np.pi / 3)
T_ABC = np.array([[1, 1, 1], [1, A ** 2, A], [1, A, A ** 2]])       # sequence (0,1,2) -> phases (a,b,c)
T_012 = np.linalg.inv(T_ABC)


# ------------------------------------------------------------------------------------------------- single phase
def ids(net):
    return [b[0] for b in net['buses']]


def pcc(net):
    return [k for k, b in enumerate(net['buses']) if b[1] == 3]


def passive(net):
    return [k for k, b in enumerate(net['buses']) if b[1] != 3 and _zero(b[2]) and _zero(b[3])]


def _zero(x):
    return all(v == 0 for v in x) if isinstance(x, (list, tuple)) else x == 0


def ybus1(net):
    """Bus admittance matrix in per unit (1 MVA)."""
    pos = {i: k for k, i in enumerate(ids(net))}
    y = np.zeros((len(pos), len(pos)), dtype=complex)
    for f, t, r, x, l, s in net['lines']:
        if s <= 0:
            continue
        a, b = pos[f], pos[t]
        kv = net['buses'][a][4]
        g = kv * kv / (r + 1j * x)
        y[a, a] += g
        y[b, b] += g
        y[a, b] -= g
        y[b, a] -= g
    return y


def schur(y, out):
    """Elimination of the given nodes."""
    out = sorted(set(int(k) for k in out))
    keep = [k for k in range(y.shape[0]) if k not in out]
    if not out:
        return y[np.ix_(keep, keep)]
    return y[np.ix_(keep, keep)] - y[np.ix_(keep, out)] @ np.linalg.solve(y[np.ix_(out, out)], y[np.ix_(out, keep)])


def reduced1(net, v, i, hidden, laplacian):
    """
    Remaining positions and reduced admittance matrix. v, i: filtered exact data of all nodes; hidden: bus ids.
    Hidden loads are replaced by the admittance mean(i)/mean(v).
    """
    y = ybus1(net)
    pos = {b: k for k, b in enumerate(ids(net))}
    hid = [pos[h] for h in hidden if net['buses'][pos[h]][1] != 3]
    for k in hid:
        y[k, k] += np.mean(i[:, k]) / np.mean(v[:, k])
    gone = set(hid) | set(passive(net))
    if not laplacian:
        gone |= set(pcc(net))
        # a slack bus has a constant voltage: its row and column are dropped, not eliminated
        keep = [k for k in range(y.shape[0]) if k not in pcc(net)]
        sub = y[np.ix_(keep, keep)]
        y = schur(sub, [keep.index(k) for k in set(hid) | set(passive(net))])
    else:
        y = schur(y, gone)
    if any(pos[h] in pcc(net) for h in hidden):
        gone |= set(pcc(net))
    return [k for k in range(len(pos)) if k not in gone], y


def ratings1(net, factor):
    p = np.array([0.0 if b[1] == 3 else b[2] ** 2 + b[3] ** 2 for b in net['buses']]) * factor
    for k in pcc(net):
        p[k] = np.sum(p)
    return p


# ------------------------------------------------------------------------------------------------- three phases
def yseq3(net, types, seq):
    """Admittance matrix of the lines in one sequence, per unit."""
    pos = {i: k for k, i in enumerate(ids(net))}
    y = np.zeros((len(pos), len(pos)), dtype=complex)
    z0 = '0' if seq == 0 else ''
    for f, t, l, typ in net['lines']:
        a, b = pos[f], pos[t]
        kv = net['buses'][a][4]
        ty = types[typ]
        z = (ty['r%s_ohm_per_km' % z0] + 1j * ty['x%s_ohm_per_km' % z0]) * l
        c = ty['c%s_nf_per_km' % z0] * l * 1e-9 * 2 * np.pi * 50
        zb = kv * kv / 3                      # base: 1 MVA per phase, phase-to-earth voltage
        g = zb / z
        sh = 0.5j * c * zb
        y[a, a] += g + sh
        y[b, b] += g + sh
        y[a, b] -= g
        y[b, a] -= g
    return y


# ------------------------------------------------------------------------------------------------- measurements
def grid(times, freq, steps, equivalent):
    """Sampling instants, number of averaged samples and the filter length to report."""
    end = np.max(times)
    n = int(round(float(end * freq)))
    f = int(np.floor(n / steps))
    if equivalent:
        n = int(round(float(end * freq / f)))
        return np.linspace(0, end, n), 1, f
    return np.linspace(0, end, n), f, f


def resample(times, m, ts, f):
    """Linear interpolation to ts and block means of f samples."""
    t = np.asarray(times, dtype=float)
    out = np.empty((len(ts), m.shape[1]), dtype=complex)
    for k in range(m.shape[1]):
        out[:, k] = np.interp(ts, t, m[:, k].real) + 1j * np.interp(ts, t, m[:, k].imag)
    n = len(ts) // f
    return out, out[:n * f].reshape(n, f, m.shape[1]).mean(axis=1)


# ------------------------------------------------------------------------------------------------- identification
def centre(x):
    return x - x.mean(axis=0)


def ols(v, i):
    return np.linalg.lstsq(v, i, rcond=None)[0]


def tls(v, i):
    n = v.shape[1]
    _, _, vh = np.linalg.svd(np.hstack((v, i)), full_matrices=True)
    w = vh.conj().T[:, n:]
    return -w[:n] @ np.linalg.inv(w[n:])


def sym_index(n, laplacian=False):
    """Pairs (row, column) of the free parameters of a symmetric (Laplacian) matrix."""
    return [(a, b) for b in range(n) for a in range(b + (1 if laplacian else 0), n)]


def to_matrix(p, n, laplacian=False):
    """Matrix of the free parameters p (complex); Laplacian: p are line admittances."""
    y = np.zeros((n, n), dtype=complex)
    for k, (a, b) in enumerate(sym_index(n, laplacian)):
        if laplacian:
            y[a, b] -= p[k]
            y[b, a] -= p[k]
            y[a, a] += p[k]
            y[b, b] += p[k]
        elif a == b:
            y[a, a] = p[k]
        else:
            y[a, b] = y[b, a] = p[k]
    return y


def from_matrix(y, laplacian=False):
    """Free parameters of the symmetric part of y."""
    n = y.shape[0]
    return np.array([(-0.5 if laplacian else 0.5) * (y[a, b] + y[b, a]) for a, b in sym_index(n, laplacian)])


def design(v, laplacian=False):
    """Matrix B with B p = vec(v Y(p)), column-wise."""
    t, n = v.shape
    idx = sym_index(n, laplacian)
    m = np.zeros((t * n, len(idx)), dtype=complex)
    for k, (a, b) in enumerate(idx):
        if laplacian:
            d = v[:, a] - v[:, b]
            m[a * t:(a + 1) * t, k] += d
            m[b * t:(b + 1) * t, k] -= d
        elif a == b:
            m[a * t:(a + 1) * t, k] += v[:, a]
        else:
            m[b * t:(b + 1) * t, k] += v[:, a]
            m[a * t:(a + 1) * t, k] += v[:, b]
    return m


def real_matrix(m):
    return np.block([[m.real, -m.imag], [m.imag, m.real]])


def real_vector(v):
    return np.concatenate((v.real, v.imag))


def penalty(l, mu, p, alpha):
    """Quadratic surrogate of |l p - mu|_1 at p."""
    w = np.abs(l @ p - mu) + alpha
    return l.T @ (l / w[:, None]), l.T @ (mu / w), np.sum(w)


def lasso_prior(y_ols, laplacian=False):
    """Adaptive sparsity of every free parameter."""
    p = real_vector(from_matrix(y_ols, laplacian))
    return np.diag(np.abs(p)), np.zeros(len(p)), 1e-5


def map_prior(y_init, lam, laplacian=False, use_diag=False, each_row=True, regularize_diag=False):
    """Adaptive sparsity of the lines and the relation between lines and row sums."""
    n = y_init.shape[0]
    idx = sym_index(n, laplacian)
    k = len(idx)
    pos = {ab: j for j, ab in enumerate(idx)}
    p = from_matrix(y_init, laplacian)
    ysym = to_matrix(p, n, laplacian)
    rows, mu = [], []
    off = [j for j, (a, b) in enumerate(idx) if a != b]
    rp = np.abs(real_vector(p))
    for j in off + [k + j for j in off]:
        r = np.zeros(2 * k)
        r[j] = 1.0 / rp[j]
        rows.append(r)
        mu.append(0.0)
    if use_diag:
        d = np.diag(y_init)
    else:
        d = -(ysym.sum(axis=1) - np.diag(ysym))
    if not laplacian:
        d = -d
    val = np.concatenate((d.real, d.imag))
    sign = np.concatenate((-np.ones(n), np.ones(n)))
    if each_row:
        for h in range(2):
            for a in range(n):
                r = np.zeros(2 * k)
                w = lam * sign[h * n + a]
                for b in range(n):
                    if b != a:
                        r[h * k + pos[(max(a, b), min(a, b))]] = w / val[h * n + a]
                rows.append(r)
                mu.append(w)
        if regularize_diag:
            dg = [j for j, (a, b) in enumerate(idx) if a == b]
            v = real_vector(np.diag(y_init))
            for j, x in zip(dg + [k + j for j in dg], v):
                r = np.zeros(2 * k)
                r[j] = lam
                rows.append(r)
                mu.append(lam * x)
    else:
        v2 = -np.array([val[:n].sum(), val[n:].sum()])
        for h, w in ((0, lam), (1, -lam)):
            r = np.zeros(2 * k)
            for j in off:
                r[h * k + j] = w / v2[h]
            rows.append(r)
            mu.append(w)
    return np.array(rows), np.array(mu), 1e-8


def polar_cov(m, sd_m, sd_p):
    """Variances and covariance of real and imaginary parts, averaged over the true values given the measured ones."""
    r, f = np.abs(m), np.angle(m)
    s, q = sd_m ** 2, sd_p ** 2
    c2, s2 = np.cos(f) ** 2, np.sin(f) ** 2
    a, b = np.cosh(2 * q) - np.cosh(q), np.sinh(2 * q) - np.sinh(q)
    c, d = 2 * np.cosh(2 * q) - np.cosh(q), 2 * np.sinh(2 * q) - np.sinh(q)
    e = np.exp(-2 * q)
    return (e * (r ** 2 * (c2 * a + s2 * b) + s * (c2 * c + s2 * d)),
            e * (r ** 2 * (s2 * a + c2 * b) + s * (s2 * c + c2 * d)),
            np.sin(f) * np.cos(f) * np.exp(-4 * q) * (s + (r ** 2 + s) * (1 - np.exp(q))))


def linear_cov(m, sd_m, sd_p):
    r, f = np.abs(m), np.angle(m)
    c, s = np.cos(f), np.sin(f)
    a, b = sd_m ** 2, (r * sd_p) ** 2
    return c * c * a + s * s * b, s * s * a + c * c * b, s * c * (a - b)


def invert_cov(rr, ii, ri):
    det = rr * ii - ri * ri
    return ii / det, rr / det, -ri / det


def blocks(w, single):
    """(T, 2n, 2n) weights of the samples from (T, n) blocks."""
    rr, ii, ri = [np.asarray(x, dtype=np.float32).astype(float) if single else np.asarray(x, dtype=float) for x in w]
    t, n = rr.shape
    out = np.zeros((t, 2 * n, 2 * n))
    k = np.arange(n)
    out[:, k, k] = rr
    out[:, n + k, n + k] = ii
    out[:, k, n + k] = ri
    out[:, n + k, k] = ri
    return out


def solve_scaled(h, g):
    """Solution of a badly scaled symmetric positive definite system."""
    d = 1.0 / np.sqrt(np.maximum(np.abs(np.diag(h)), 1e-300))
    y = np.linalg.solve(h * d[:, None] * d[None, :], g * d)
    hs, gs = h * d[:, None] * d[None, :], g * d
    y = y + np.linalg.solve(hs, gs - hs @ y)
    return y * d


def matrices(p, n, laplacian):
    k = len(p) // 2
    return to_matrix(p[:k] + 1j * p[k:], n, laplacian)


def lasso_step(x, z, p, prior, lam, laplacian=False):
    """Parameters after one iteration from the parameters p. Returns (new p, H, g)."""
    n = x.shape[1]
    a = real_matrix(design(x, laplacian))
    b = real_vector(z.flatten('F'))
    m, mu, _ = penalty(prior[0], prior[1], p, prior[2])
    h, g = a.T @ a + lam * m, a.T @ b + lam * mu
    return solve_scaled(h, g), h, g


def map_step(x, z, y, prior, lam, laplacian=False, p=None):
    """Unweighted iteration from the matrix y."""
    n = x.shape[1]
    null = np.vstack((y, -np.eye(n)))
    proj = np.eye(2 * n) - null @ np.linalg.inv(null.conj().T @ null) @ null.conj().T
    e = (np.hstack((x, z)) @ proj)[:, :n]
    a = real_matrix(design(e, laplacian))
    b = real_vector(z.flatten('F'))
    p = real_vector(from_matrix(y, laplacian)) if p is None else p
    m, mu, _ = penalty(prior[0], prior[1], p, prior[2])
    h, g = a.T @ a + lam * m, a.T @ b + lam * mu
    return solve_scaled(h, g), h, g


def wmap_step(x, z, y, prior, lam, wx, wz, laplacian=False, single=True):
    """Weighted iteration from the matrix y. wx, wz: blocks of the inverse covariances. Returns (p, H, g, target)."""
    t, n = x.shape
    bx, bz = blocks(wx, single), blocks(wz, single)
    yr = np.block([[y.real, -y.imag], [y.imag, y.real]])
    a, b = np.hstack((x.real, x.imag)), np.hstack((z.real, z.imag))
    zy = np.einsum('ij,tjk->tik', yr.T, bz)
    yzy = np.einsum('tij,jk->tik', zy, yr)
    rhs = np.einsum('tij,tj->ti', yzy, a) - np.einsum('tij,tj->ti', zy, b)
    da = np.linalg.solve(yzy + bx, rhs[:, :, None])[:, :, 0]
    e = da[:, :n] + 1j * da[:, n:]
    if single:
        e = e.astype(np.complex64).astype(complex)
    am = real_matrix(design(x - e, laplacian))
    k = am.shape[1]
    # rows of am: node-major, real then imaginary -> (t, 2n, k)
    ar = am[:t * n].reshape(n, t, k).transpose(1, 0, 2)
    ai = am[t * n:].reshape(n, t, k).transpose(1, 0, 2)
    at = np.concatenate((ar, ai), axis=1)
    p = real_vector(from_matrix(y, laplacian))
    m, mu, _ = penalty(prior[0], prior[1], p, prior[2])
    wa = np.einsum('tij,tjk->tik', bz, at)
    h = np.einsum('tik,til->kl', at, wa) + lam * m
    g = np.einsum('tik,ti->k', wa, b) + lam * mu
    q = solve_scaled(h, g)
    db = b - np.einsum('tik,k->ti', at, q)
    _, _, pen = penalty(prior[0], prior[1], q, prior[2])
    cost = np.einsum('ti,tij,tj->', db, bz, db) + np.einsum('ti,tij,tj->', da, bx, da) + lam * pen
    return q, h, g, abs(cost)
