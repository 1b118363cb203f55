"""Independent closed forms (float64, by quadrature) of the linear SDEs of the repository."""
import numpy as np


def make(kind, r):
    """-> (constructor of the repository's SDE, a(t), b2(t)) with random parameters."""
    if kind == 'const':
        a, b = -float(r.uniform(.2, 1.5)), float(r.uniform(.4, 1.6))

        def build():
            from fbs.sdes import StationaryConstLinearSDE
            return StationaryConstLinearSDE(a=a, b=b)
        return build, (lambda t: a + 0 * t), (lambda t: b ** 2 + 0 * t)
    if kind == 'lin':
        bm, bM, t0, T = float(r.uniform(.02, .5)), float(r.uniform(1., 5.)), float(r.choice([0., .1])), float(r.choice([1., 2.]))

        def build():
            from fbs.sdes import StationaryLinLinearSDE
            return StationaryLinLinearSDE(beta_min=bm, beta_max=bM, t0=t0, T=T)

        def beta(t): return bm + (bM - bm) * (t - t0) / (T - t0)
        return build, (lambda t: -.5 * beta(t)), beta
    a, b, c, z = -float(r.uniform(.2, 1.)), float(r.uniform(.4, 1.2)), float(r.uniform(.3, 1.5)), float(r.uniform(0, 1))

    def build():
        from fbs.sdes import StationaryExpLinearSDE
        return StationaryExpLinearSDE(a=a, b=b, c=c, z=z)
    return build, (lambda t: a * np.exp(c * (t - z))), (lambda t: b ** 2 * np.exp(c * (t - z)))


_x, _w = np.polynomial.legendre.leggauss(40)


def quad(f, s, t):
    h = (t - s) / 2
    return h * np.sum(_w * f(s + h * (_x + 1)))


def transition(a, b2, s, t):
    """Mean factor and variance of X(t) given X(s)."""
    F = np.exp(quad(a, s, t))
    Q = quad(np.vectorize(lambda u: b2(u) * np.exp(2 * quad(a, u, t))), s, t)
    return F, Q


def path_law(a, b2, ts):
    """Mean factors (n,) of X(ts) given X(ts[0]) = 1 and covariance (n, n)."""
    n = len(ts)
    m, C = np.ones(n), np.zeros((n, n))
    for k in range(1, n):
        F, Q = transition(a, b2, ts[k - 1], ts[k])
        m[k] = F * m[k - 1]
        C[k, :k] = F * C[k - 1, :k]
        C[:k, k] = C[k, :k]
        C[k, k] = F ** 2 * C[k - 1, k - 1] + Q
    return m, C
