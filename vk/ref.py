"""Independent numpy reference models (no jax, no fmmax code).

Conventions: exp(-i w t), c = 1, w = 2 pi / wavelength, fields
sum_G f_G exp(i (k0 + G) . r), lattice coordinates r = i/nx u + j/ny v.
"""

import numpy as np


def recip(u, v):
    """Rows are the reciprocal vectors (with 2 pi)."""
    a = np.array([u, v], float)
    return 2 * np.pi * np.linalg.inv(a).T


def kvecs(k0, u, v, G):
    b = recip(u, v)
    return np.asarray(k0, float)[None, :] + np.asarray(G, float) @ b


def coeff(arr, G):
    """True discrete Fourier coefficients of samples, by direct summation."""
    arr = np.asarray(arr, np.complex128)
    nx, ny = arr.shape[-2:]
    G = np.asarray(G)
    ex = np.exp(-2j * np.pi * np.outer(G[..., 0].ravel(), np.arange(nx)) / nx)
    ey = np.exp(-2j * np.pi * np.outer(G[..., 1].ravel(), np.arange(ny)) / ny)
    out = np.einsum("gx,...xy,gy->...g", ex, arr, ey, optimize=True) / (nx * ny)
    return out.reshape(arr.shape[:-2] + G.shape[:-1])


def toeplitz(arr, G):
    arr = np.asarray(arr, np.complex128)
    G = np.asarray(G)
    nx, ny = arr.shape[-2:]
    n = len(G)
    if nx == 1 and ny == 1:
        return arr[..., 0, 0][..., None, None] * np.eye(n)
    c = np.fft.fft2(arr) / (nx * ny)
    d = G[:, None, :] - G[None, :, :]
    return c[..., d[..., 0] % nx, d[..., 1] % ny]


def synth(f, G, nx, ny):
    """Samples at (i/nx, j/ny) of the periodic function with coefficients f (..., N)."""
    G = np.asarray(G)
    ex = np.exp(2j * np.pi * np.outer(G[:, 0], np.arange(nx)) / nx)
    ey = np.exp(2j * np.pi * np.outer(G[:, 1], np.arange(ny)) / ny)
    return np.einsum("...g,gx,gy->...xy", f, ex, ey, optimize=True)


def block_inv(m):
    return np.linalg.inv(m)


def laurent_tensor(t, G):
    """[[xx, xy], [yx, yy]] block Toeplitz acting on (x, y)."""
    return np.block([[toeplitz(t[0], G), toeplitz(t[1], G)], [toeplitz(t[2], G), toeplitz(t[3], G)]])


def tangent_iso(eps, tx, ty, G, zero_tol=1e-8):
    """D = [eps] E - Delta P E, P the projection normal to t (pointwise)."""
    m2 = np.abs(tx) ** 2 + np.abs(ty) ** 2
    ok = m2 > zero_tol
    d = np.where(ok, m2, 1.0)
    pxx = np.where(ok, np.abs(ty) ** 2 / d, 0)
    pyy = np.where(ok, np.abs(tx) ** 2 / d, 0)
    pxy = np.where(ok, -tx * np.conj(ty) / d, 0)
    pyx = np.where(ok, -ty * np.conj(tx) / d, 0)
    te = toeplitz(eps, G)
    delta = te - np.linalg.inv(toeplitz(1 / np.asarray(eps), G))
    z = np.zeros_like(te)
    return np.block([[te, z], [z, te]]) - np.block(
        [
            [delta @ toeplitz(pxx, G), delta @ toeplitz(pxy, G)],
            [delta @ toeplitz(pyx, G), delta @ toeplitz(pyy, G)],
        ]
    )


def tangent_tensor(t, tx, ty, G, zero_tol=1e-8):
    """Normal-vector factorization of a general in-plane tensor (xx, xy, yx, yy, zz)."""
    m2 = np.abs(tx) ** 2 + np.abs(ty) ** 2
    ok = m2 > zero_tol
    tx = np.where(ok, tx, 0.0)
    ty = np.where(ok, ty, 1.0)
    nxv, nyv = np.conj(ty), -np.conj(tx)
    # Q = [t, n] columns.
    det = tx * nyv - ty * nxv
    q = [tx, nxv, ty, nyv]  # xx xy yx yy of Q
    qi = [nyv / det, -nxv / det, -ty / det, tx / det]

    def mul(a, b):
        return [
            a[0] * b[0] + a[1] * b[2],
            a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2],
            a[2] * b[1] + a[3] * b[3],
        ]

    r = mul(mul(qi, list(t[:4])), q)  # tensor in the (t, n) basis
    C = np.block(
        [
            [toeplitz(r[0], G), toeplitz(r[1], G)],
            [toeplitz(r[2], G), np.linalg.inv(toeplitz(1 / r[3], G))],
        ]
    )
    Tq = np.block([[toeplitz(q[0], G), toeplitz(q[1], G)], [toeplitz(q[2], G), toeplitz(q[3], G)]])
    Ti = np.block([[toeplitz(qi[0], G), toeplitz(qi[1], G)], [toeplitz(qi[2], G), toeplitz(qi[3], G)]])
    return Tq @ C @ Ti


def k_ops(k):
    return np.diag(k[:, 0]).astype(complex), np.diag(k[:, 1]).astype(complex)


def maxwell_generator(E, M, ezz, mzz, k, w):
    """d/dz [Ex, Ey, Hx, Hy] = X [...] for D_t = E E_t, B_t = M H_t, zz Toeplitz matrices."""
    n = len(k)
    kx, ky = k_ops(k)
    iezz = np.linalg.inv(ezz)
    imzz = np.linalg.inv(mzz)
    z = np.zeros((n, n), complex)
    # Ez = -iezz (kx Hy - ky Hx)/w ; Hz = imzz (kx Ey - ky Ex)/w  as row operators
    Ez_h = [iezz @ ky / w, -iezz @ kx / w]  # on Hx, Hy
    Hz_e = [-imzz @ ky / w, imzz @ kx / w]  # on Ex, Ey
    Mxx, Mxy, Myx, Myy = M[:n, :n], M[:n, n:], M[n:, :n], M[n:, n:]
    Exx, Exy, Eyx, Eyy = E[:n, :n], E[:n, n:], E[n:, :n], E[n:, n:]
    dEx = [z, z, 1j * kx @ Ez_h[0] + 1j * w * Myx, 1j * kx @ Ez_h[1] + 1j * w * Myy]
    dEy = [z, z, 1j * ky @ Ez_h[0] - 1j * w * Mxx, 1j * ky @ Ez_h[1] - 1j * w * Mxy]
    dHx = [1j * kx @ Hz_e[0] - 1j * w * Eyx, 1j * kx @ Hz_e[1] - 1j * w * Eyy, z, z]
    dHy = [1j * ky @ Hz_e[0] + 1j * w * Exx, 1j * ky @ Hz_e[1] + 1j * w * Exy, z, z]
    return np.block([dEx, dEy, dHx, dHy])


def modes(X):
    """Forward modes: eigenvalues q (exp(i q z)) with Im q > 0 or (real) positive flux."""
    lam, V = np.linalg.eig(X)
    return lam / 1j, V


def thin_film_s(eps, thick, k, w):
    """Exact scattering (H amplitude) of a uniform stack, per order.

    Returns for each order a 2x2 set of blocks in (hx, hy) for s11, s12, s21, s22
    with forward amplitude at layer start, backward at layer end.
    """
    out = {b: np.zeros((2, 2), complex) for b in ("s11", "s12", "s21", "s22")}
    kt = np.hypot(*k)
    if kt == 0:
        kh = np.array([1.0, 0.0])
    else:
        kh = np.asarray(k) / kt
    sh = np.array([-kh[1], kh[0]])
    qs = [csqrt(e * w**2 - kt**2) for e in eps]
    for pol, d in (("te", kh), ("tm", sh)):
        Z = [w / q if pol == "te" else q / (w * e) for q, e in zip(qs, eps)]
        s11, s12, s21, s22 = scalar_stack(qs, Z, thick)
        P = np.outer(d, d)
        out["s11"] += s11 * P
        out["s12"] += s12 * P
        out["s21"] += s21 * P
        out["s22"] += s22 * P
    return out


def csqrt(x):
    """Square root with Im >= 0 (Re > 0 on the real axis)."""
    r = np.sqrt(complex(x))
    if r.imag < 0 or (r.imag == 0 and r.real < 0):
        r = -r
    return r


def scalar_stack(qs, Z, d):
    """Scalar BVP solved globally: h = a e^{iqz} + b e^{iq(d-z)}, e = Z(a.. - b..)."""
    L = len(qs)
    if L == 1:
        return 1.0, 0.0, 0.0, 1.0
    A = np.zeros((2 * L, 2 * L), complex)
    f = [np.exp(1j * q * t) for q, t in zip(qs, d)]
    r = 0
    for i in range(L - 1):
        # h: f_i a_i + b_i = a_{i+1} + f_{i+1} b_{i+1}
        A[r, 2 * i], A[r, 2 * i + 1] = f[i], 1
        A[r, 2 * i + 2], A[r, 2 * i + 3] = -1, -f[i + 1]
        r += 1
        A[r, 2 * i], A[r, 2 * i + 1] = Z[i] * f[i], -Z[i]
        A[r, 2 * i + 2], A[r, 2 * i + 3] = -Z[i + 1], Z[i + 1] * f[i + 1]
        r += 1
    A[r, 0] = 1
    A[r + 1, 2 * L - 1] = 1
    rhs = np.zeros((2 * L, 2), complex)
    rhs[r, 0] = 1
    rhs[r + 1, 1] = 1
    x = np.linalg.solve(A, rhs)
    return x[2 * L - 2, 0], x[2 * L - 2, 1], x[1, 0], x[1, 1]


def bvp_amplitudes(F, fd, a0=None, bN=None):
    """Global solve of tangential continuity.

    F: list of (4N', 2M) conversion matrices; fd: list of (M,) phases.  Returns the
    list of (a_i, b_i) response matrices to unit excitation (a0 then bN): shapes (M, 2M).
    """
    L = len(F)
    M = F[0].shape[1] // 2
    if L == 1:
        I = np.eye(M, dtype=complex)
        Z = np.zeros((M, M), complex)
        return [(np.hstack([I, Z]), np.hstack([Z, I]))]
    A = np.zeros((2 * M * L, 2 * M * L), complex)
    for i in range(L - 1):
        r = slice(2 * M * i, 2 * M * (i + 1))
        s = F[i].copy()
        s[:, :M] = s[:, :M] * fd[i][None, :]
        t = F[i + 1].copy()
        t[:, M:] = t[:, M:] * fd[i + 1][None, :]
        A[r, 2 * M * i : 2 * M * (i + 1)] = s
        A[r, 2 * M * (i + 1) : 2 * M * (i + 2)] = -t
    r0 = 2 * M * (L - 1)
    A[r0 : r0 + M, :M] = np.eye(M)
    A[r0 + M :, 2 * M * L - M :] = np.eye(M)
    rhs = np.zeros((2 * M * L, 2 * M), complex)
    rhs[r0 : r0 + M, :M] = np.eye(M)
    rhs[r0 + M :, M:] = np.eye(M)
    x = np.linalg.solve(A, rhs)
    return [(x[2 * M * i : 2 * M * i + M], x[2 * M * i + M : 2 * M * (i + 1)]) for i in range(L)]


def bvp_s(F, fd):
    r = bvp_amplitudes(F, fd)
    M = F[0].shape[1] // 2
    aN = r[-1][0]
    b0 = r[0][1]
    return aN[:, :M], aN[:, M:], b0[:, :M], b0[:, M:]
