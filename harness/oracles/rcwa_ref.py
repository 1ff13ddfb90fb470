"""Independent coupled-wave reference (numpy).

First-order system for the tangential fields with exp(-i w t), c=1:
    d/dz [Ex;Ey] = P [Hx;Hy],   d/dz [Hx;Hy] = Q [Ex;Ey]
solved by the E-field modes of P Q and one global linear system for all mode
amplitudes (no S-matrix recursion), with direct-rule convolution matrices.
"""
import numpy as np


def reciprocal(L1, L2):
    A = np.array([L1, L2], float)  # rows are lattice vectors
    return np.linalg.inv(A).T  # rows are reciprocal vectors / (2 pi)


def select_G(nG, L1, L2, method=0):
    """Orders as a list of integer pairs (order inside a shell is irrelevant)."""
    B = reciprocal(L1, L2)
    if method == 1:
        r = int(np.sqrt(nG))
        if r % 2 == 0:
            r -= 1
        m = r // 2
        G = [(i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)]
        G.sort(key=lambda g: np.linalg.norm(g @ B))
        return np.array(G, int).reshape(-1, 2)
    ext = int(np.sqrt(nG)) + 2
    if abs(np.dot(B[0], B[1])) > 1e-12:
        ext *= 3
    # anisotropic lattices need a wider range along the short reciprocal vector
    u, v = np.linalg.norm(B[0]), np.linalg.norm(B[1])
    ratio = int(np.ceil(max(u / v, v / u)))
    e1 = ext * (ratio if u < v else 1)
    e2 = ext * (ratio if v < u else 1)
    G = [(i, j) for i in range(-e1, e1 + 1) for j in range(-e2, e2 + 1)]
    length2 = np.array([np.sum((np.array(g) @ B) ** 2) for g in G])
    order = np.argsort(length2, kind="stable")
    length2 = length2[order]
    G = [G[k] for k in order]
    tol = 1e-9 * max(u, v) ** 2
    best, k, n = 1, 0, len(G)
    while k < n:
        j = k
        while j < n and abs(length2[j] - length2[k]) <= tol:
            j += 1
        if j <= nG - 1:
            best = j
        else:
            break
        k = j
    return np.array(G[:best], int).reshape(-1, 2)


def conv(grid, G):
    """Convolution matrix by explicit Fourier sums."""
    grid = np.asarray(grid, complex)
    Nx, Ny = grid.shape
    d0 = G[:, None, 0] - G[None, :, 0]
    d1 = G[:, None, 1] - G[None, :, 1]
    out = np.zeros(d0.shape, complex)
    cache = {}
    x = np.arange(Nx)[:, None] / Nx
    y = np.arange(Ny)[None, :] / Ny
    for i in range(len(G)):
        for j in range(len(G)):
            key = (int(d0[i, j]), int(d1[i, j]))
            if key not in cache:
                cache[key] = np.mean(grid * np.exp(-2j * np.pi * (key[0] * x + key[1] * y)))
            out[i, j] = cache[key]
    return out


class Solution:
    pass


def _sqrt_pos(z):
    q = np.sqrt(np.asarray(z, complex))
    return np.where(q.imag < 0, -q, q)


def solve(layers, L1, L2, nG, freq, theta=0.0, phi=0.0, pol=(0, 0, 1, 0), order=(0, 0),
          direction="forward", method=0, pscale=1.0):
    """layers: list of (thickness, eps); eps is a scalar, a 2D array or a tuple of three 2D arrays."""
    w = 2 * np.pi * freq
    G = select_G(nG, L1, L2, method)
    n = len(G)
    B = reciprocal(L1, L2) / pscale
    e0 = complex(layers[0][1])
    k0 = w * np.sqrt(e0)
    Gk = 2 * np.pi * (G @ B)
    kx = k0 * np.sin(theta) * np.cos(phi) + Gk[:, 0]
    ky = k0 * np.sin(theta) * np.sin(phi) + Gk[:, 1]
    Kx, Ky, I, Z = np.diag(kx), np.diag(ky), np.eye(n), np.zeros((n, n))

    modes = []
    for t, eps in layers:
        if isinstance(eps, tuple):
            ex, ey, ez = (conv(c, G) for c in eps)
            uniform = False
        elif np.ndim(eps) == 2:
            ex = ey = ez = conv(eps, G)
            uniform = False
        else:
            ex = ey = ez = complex(eps) * I
            uniform = True
        ezi = np.linalg.inv(ez)
        # Ez = (1/w) ezi (ky Hx - kx Hy)
        P = np.block([
            [1j * Kx @ ezi @ Ky / w, -1j * Kx @ ezi @ Kx / w + 1j * w * I],
            [1j * Ky @ ezi @ Ky / w - 1j * w * I, -1j * Ky @ ezi @ Kx / w],
        ])
        # Hz = (kx Ey - ky Ex)/w ; dHx/dz = i kx Hz - i w ey Ey ; dHy/dz = i ky Hz + i w ex Ex
        Q = np.block([
            [-1j * Kx @ Ky / w, 1j * Kx @ Kx / w - 1j * w * ey],
            [-1j * Ky @ Ky / w + 1j * w * ex, 1j * Ky @ Kx / w],
        ])
        if uniform:
            q = _sqrt_pos(complex(eps) * w**2 - kx**2 - ky**2)
            q = np.concatenate([q, q])
            W = np.eye(2 * n, dtype=complex)
        else:
            lam2, W = np.linalg.eig(-P @ Q)
            q = _sqrt_pos(lam2)
        V = Q @ W / (1j * q)[None, :]
        modes.append((t, q, W, V, ezi))

    N = len(layers)
    m = 2 * n
    iz = [k for k in range(n) if G[k][0] == order[0] and G[k][1] == order[1]][0]
    p_amp, p_ph, s_amp, s_ph = pol
    hx = -s_amp * np.cos(theta) * np.cos(phi) * np.exp(1j * s_ph) - p_amp * np.sin(phi) * np.exp(1j * p_ph)
    hy = -s_amp * np.cos(theta) * np.sin(phi) * np.exp(1j * s_ph) + p_amp * np.cos(phi) * np.exp(1j * p_ph)
    hin = np.zeros(m, complex)
    hin[iz], hin[iz + n] = hx, hy

    # unknowns: for layer 0 only b (at its bottom); inner a (top), b (bottom); last layer only a (top)
    # incident amplitudes are specified by their H field at the outer faces
    a_in = np.zeros(m, complex)
    b_in = np.zeros(m, complex)
    if direction == "forward":
        a_in = np.linalg.solve(modes[0][3], hin)
    else:
        b_in = np.linalg.solve(-modes[-1][3], hin)
    unknown = {}
    c = 0
    for l in range(N):
        if l > 0:
            unknown[(l, "a")] = c
            c += m
        if l < N - 1:
            unknown[(l, "b")] = c
            c += m
    A = np.zeros((c, c), complex)
    rhs = np.zeros(c, complex)
    row = 0
    for l in range(N - 1):
        # interface between l (at its bottom) and l+1 (at its top)
        for side, lay, z in ((1, l, "bottom"), (-1, l + 1, "top")):
            t, q, W, V, _ = modes[lay]
            fa = np.exp(1j * q * t) if z == "bottom" else np.ones(m)
            fb = np.ones(m) if z == "bottom" else np.exp(1j * q * t)
            Fa = np.vstack([W, V]) * fa[None, :]
            Fb = np.vstack([W, -V]) * fb[None, :]
            for kind, F, known in (("a", Fa, a_in if lay == 0 else None), ("b", Fb, b_in if lay == N - 1 else None)):
                if (lay, kind) in unknown:
                    cc = unknown[(lay, kind)]
                    A[row:row + 2 * m, cc:cc + m] += side * F
                else:
                    rhs[row:row + 2 * m] -= side * (F @ known)
        row += 2 * m
    x = np.linalg.solve(A, rhs) if N > 1 else np.zeros(0)
    amp = []
    for l in range(N):
        a = x[unknown[(l, "a")]:unknown[(l, "a")] + m] if (l, "a") in unknown else a_in
        b = x[unknown[(l, "b")]:unknown[(l, "b")] + m] if (l, "b") in unknown else b_in
        amp.append((a, b))

    sol = Solution()
    sol.G, sol.kx, sol.ky, sol.w, sol.n = G, kx, ky, w, n
    sol.modes, sol.amp = modes, amp
    sol.norm = np.sqrt(e0) / np.cos(theta)

    def fields(layer, z):
        t, q, W, V, ezi = modes[layer]
        a = amp[layer][0] * np.exp(1j * q * z)
        b = amp[layer][1] * np.exp(1j * q * (t - z))
        e = W @ (a + b)
        h = V @ (a - b)
        ex, ey, hx_, hy_ = e[:n], e[n:], h[:n], h[n:]
        hz = (kx * ey - ky * ex) / w
        ez = ezi @ ((ky * hx_ - kx * hy_) / w)
        return np.array([[ex, ey, ez], [hx_, hy_, hz]])

    sol.fields = fields

    def flux_split(layer):
        """Per-order forward and backward flux with the amplitudes at their own reference planes."""
        t, q, W, V, _ = modes[layer]
        a, b = amp[layer]
        ea, ha, eb, hb = W @ a, V @ a, W @ b, -V @ b
        rot = lambda e: np.concatenate([-e[n:], e[:n]])  # noqa: E731  (-ey, ex)
        Aa, Ab = rot(ea), -rot(eb)
        diff = 0.5 * (np.conj(hb) * Aa - np.conj(Ab) * ha)
        fwd = np.real(np.conj(Aa) * ha) + diff
        bwd = -np.real(np.conj(Ab) * hb) + np.conj(diff)
        return (fwd[:n] + fwd[n:]).real, (bwd[:n] + bwd[n:]).real

    f0, b0 = flux_split(0)
    fN, bN = flux_split(N - 1)
    if direction == "forward":
        sol.R_order, sol.T_order = -b0, fN
    else:
        sol.R_order, sol.T_order = fN, -b0
    sol.R, sol.T = sol.R_order.sum(), sol.T_order.sum()
    return sol
