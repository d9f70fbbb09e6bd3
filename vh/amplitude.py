"""Amplitude equations of resonantly coupled modes, their stationary points and linearisation."""
import numpy as np


def rhs(a, phi, w, g, delta, eta):
    s, c = np.sin(phi), np.cos(phi)
    return np.array([g[0] * a[0] + 2 * w[0] * eta * a[1] * a[2] * s,
                     g[1] * a[1] - 2 * w[1] * eta * a[0] * a[2] * s,
                     g[2] * a[2] - 2 * w[2] * eta * a[0] * a[1] * s,
                     -delta + 2 * eta * c * (w[0] * a[1] * a[2] / a[0] - w[1] * a[0] * a[2] / a[1]
                                             - w[2] * a[0] * a[1] / a[2])])


def daughters_growth(a1, w, g, delta, eta):
    """Largest growth rate of two daughters driven by a parent of constant amplitude a1
    (equations linear in (A2, conj A3), in the frame in which they are autonomous)."""
    M = np.array([[g[1] + .5j * delta, 2j * w[1] * eta * a1],
                  [-2j * w[2] * eta * a1, g[2] - .5j * delta]])
    return np.linalg.eigvals(M).real.max()


def jac_fd(f, y):
    """Jacobian by complex steps."""
    n = len(y)
    J = np.zeros((n, n))
    for k in range(n):
        z = y.astype(complex)
        h = 1e-30 * max(abs(y[k]), 1e-30)
        z[k] += 1j * h
        J[:, k] = f(z).imag / h
    return J


def three(w, g, delta, eta):
    """Jacobian of the amplitude-phase equations of three modes at the stationary point."""
    q = delta / g.sum()
    Q = w / g
    a = np.sqrt((1 + q * q) / (4 * eta ** 2) / np.abs([Q[1] * Q[2], Q[0] * Q[2], Q[0] * Q[1]]))
    phi = np.arctan2(-1.0, q) if g[0] > 0 else np.arctan2(1.0, -q)

    def f(y):
        s, c = np.sin(y[3]), np.cos(y[3])
        return np.array([g[0] * y[0] + 2 * w[0] * eta * y[1] * y[2] * s,
                         g[1] * y[1] - 2 * w[1] * eta * y[0] * y[2] * s,
                         g[2] * y[2] - 2 * w[2] * eta * y[0] * y[1] * s,
                         -delta + 2 * eta * c * (w[0] * y[1] * y[2] / y[0] - w[1] * y[0] * y[2] / y[1]
                                                 - w[2] * y[0] * y[1] / y[2])])
    y = np.array([*a, phi])
    r = np.abs(f(y)) / np.array([*(np.abs(g) * a), abs(delta) + np.abs(g).sum()])
    assert r.max() < 1e-9, r
    return jac_fd(f, y), q


def two(w, g, delta, eta):
    """The same for a parent and one daughter that couples with itself (g, w of both)."""
    q = delta / (g[0] + 2 * g[1])
    s = -np.sign(g[0]) / np.sqrt(1 + q * q)
    a1 = g[1] / (2 * w[1] * eta * s)
    a2 = np.sqrt(-g[0] * a1 / (w[0] * eta * s))

    def f(y):
        return np.array([g[0] * y[0] + w[0] * eta * y[1] ** 2 * np.sin(y[2]),
                         g[1] * y[1] - 2 * w[1] * eta * y[0] * y[1] * np.sin(y[2]),
                         -delta + eta * np.cos(y[2]) * (w[0] * y[1] ** 2 / y[0] - 4 * w[1] * y[0])])
    for c in (q * abs(s), -q * abs(s)):
        y = np.array([a1, a2, np.arctan2(s, c)])
        if abs(f(y)[2]) < 1e-9 * abs(delta):
            return jac_fd(f, y), q
    raise AssertionError('no stationary point')


def verdict(J):
    """True/False, or None if too close to call."""
    ev = np.linalg.eigvals(J)
    m = ev.real.max()
    return None if abs(m) < 1e-7 * np.abs(ev).max() else bool(m < 0)
