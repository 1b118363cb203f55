"""Finite-state simulated worlds.

The repository's samplers are generic in the model: transition samplers, densities, initial laws, forward noising and
measurement models are injected callbacks.  The simulator supplies finite-state models through exactly those seams, with
random probability tables, so that every law the samplers promise can be enumerated exactly in float64.

A state index s in {0..S-1} travels through the code under test embedded in a float array of shape `ushape` (all the
coordinates are functions of s), an observation index in one of shape `vshape`; the time handed to a callback must be the
time of the step it is called for (tables are looked up by time, on an irregular grid, so that a shifted or swapped
argument reads another table).
"""
import itertools
import numpy as np
import jax
import jax.numpy as jnp

SHAPES = [(1,), (2,), (2, 3), ()]


def enc(s, shape):
    """index array (...) -> embedded (..., *shape)"""
    s = jnp.asarray(s).astype(jnp.float32 if not jax.config.jax_enable_x64 else jnp.float64)
    d = int(np.prod(shape)) if shape else 1
    offs = jnp.arange(d).reshape(shape) if shape else jnp.zeros(())
    return s.reshape(s.shape + (1,) * len(shape)) * (1. + offs) - 0.25 * offs


def dec(u, shape):
    """embedded (..., *shape) -> index; -1 when it is not a valid embedding (NaN included)."""
    nd = len(shape)
    u0 = u[(...,) + (0,) * nd] if nd else u
    s = jnp.round(u0)
    ok = jnp.abs(enc(s, shape) - u) < 1e-3
    ok = jnp.all(ok, axis=tuple(range(-nd, 0))) if nd else ok
    return jnp.where(ok, s, -1).astype(jnp.int32)


def rand_probs(r, shape, conc=1., zeros=0.):
    """Random conditional probability tables (last axis sums to one), optionally with exact zeros."""
    p = r.gamma(conc, size=shape) + 0.05
    if zeros:
        m = r.random(shape) < zeros
        keep = r.integers(0, shape[-1], size=shape[:-1])
        np.put_along_axis(m, keep[..., None], False, axis=-1)
        p = np.where(m, 0., p)
    return p / p.sum(-1, keepdims=True)


def rand_times(r, K, decreasing=False):
    dts = r.uniform(0.05, 0.9, size=K)
    ts = np.concatenate([[0.], np.cumsum(dts)]) + r.choice([0., 0.3])
    return ts[::-1].copy() if decreasing else ts


class World:
    """Backward chain (u_k, v_k), k = 0..K:
        p0[v0, u0], T[e, k, v_k, u_k, u_{k+1}], G[e, k, v_k, u_k, v_{k+1}]   (G: positive weights or probabilities)
    `e` selects a world variant through a keyword argument forwarded by the samplers (e in {0, 1})."""

    def __init__(self, seed, S, V, K, conc=1., tzeros=0., gzeros=0., gscale=None, ends0=True):
        r = np.random.default_rng(seed)
        self.S, self.V, self.K = S, V, K
        self.ts = rand_times(r, K)
        self.p0 = rand_probs(r, (V, S), conc)
        self.T = rand_probs(r, (2, K, V, S, S), conc, tzeros)
        self.G = rand_probs(r, (2, K, V, S, V), conc, gzeros)
        self.g0 = np.exp(r.normal(size=(V, V, S)) * 0.8)  # an arbitrary weight on u0, given v0 and v1
        self.off = np.zeros(K + 1)
        if gscale:
            self.off = r.uniform(-gscale, gscale, size=K + 1)
        self.r = r

    def tables(self):
        """The traced arrays handed to the compiled simulation."""
        f = jnp.asarray
        with np.errstate(divide='ignore'):
            return dict(ts=f(self.ts), p0=f(self.p0), T=f(self.T), lT=f(np.log(self.T)),
                        lG=f(np.log(self.G) + self.off[1:][None, :, None, None, None]),
                        lg0=f(np.log(self.g0) + self.off[0]))

    # -- exact laws -----------------------------------------------------------------------------------------------
    def paths(self):
        return np.array(list(itertools.product(range(self.S), repeat=self.K + 1)))

    def path_weights(self, vs, e=0, use_g0=True, u0=None):
        """Unnormalised target of every path u_{0:K} given v_{0:K}."""
        P = self.paths()
        w = self.p0[vs[0], P[:, 0]].copy()
        if u0 is not None:
            w = (P[:, 0] == u0).astype(float)
        if use_g0:
            w = w * self.g0[vs[0], vs[1], P[:, 0]]
        for k in range(self.K):
            w = w * self.G[e, k, vs[k], P[:, k], vs[k + 1]] * self.T[e, k, vs[k], P[:, k], P[:, k + 1]]
        return P, w


class Model:
    """The injected callbacks of a world, closed over (possibly traced) tables."""

    def __init__(self, tab, S, V, K, ushape=(1,), vshape=(1,), kw=False):
        self.t, self.S, self.V, self.K, self.ushape, self.vshape, self.kw = tab, S, V, K, ushape, vshape, kw

    def k_of(self, t):
        return jnp.argmin(jnp.abs(self.t['ts'] - t))

    def _e(self, kwargs):
        return kwargs['variant'] if self.kw else 0

    def cat(self, key, p):
        """index ~ p along the last axis (batched), by inverse CDF with the harness' own arithmetic"""
        c = jnp.cumsum(p, -1)
        u = jax.random.uniform(key, p.shape[:-1]) * c[..., -1]
        i = jnp.sum(u[..., None] >= c, -1)
        return jnp.minimum(i, p.shape[-1] - 1)

    def init_sampler(self, v0):
        def f(key, n):
            p = jnp.broadcast_to(self.t['p0'][dec(v0, self.vshape)], (n, self.S))
            return enc(self.cat(key, p), self.ushape)
        return f

    def init_sampler_v(self, key, v0, n):
        p = jnp.broadcast_to(self.t['p0'][dec(v0, self.vshape)], (n, self.S))
        return enc(self.cat(key, p), self.ushape)

    def init_loglik(self, v0, u0s, v1, **kw):
        return self.t['lg0'][dec(v0, self.vshape), dec(v1, self.vshape), dec(u0s, self.ushape)]

    def transition_sampler(self, us, v, t, key, **kw):
        e, k = self._e(kw), self.k_of(t)
        p = self.t['T'][e, k, dec(v, self.vshape), dec(us, self.ushape)]
        return enc(self.cat(key, p), self.ushape)

    def transition_logpdf(self, u, us_prev, v_prev, t_prev, **kw):
        e, k = self._e(kw), self.k_of(t_prev)
        return self.t['lT'][e, k, dec(v_prev, self.vshape), dec(us_prev, self.ushape), dec(u, self.ushape)]

    def loglik(self, v, us_prev, v_prev, t_prev, **kw):
        e, k = self._e(kw), self.k_of(t_prev)
        return self.t['lG'][e, k, dec(v_prev, self.vshape), dec(us_prev, self.ushape), dec(v, self.vshape)]


class x64:
    """Run a scenario in double precision."""

    def __init__(self, on):
        self.on = bool(on)

    def __enter__(self):
        self.prev = jax.config.jax_enable_x64
        jax.config.update('jax_enable_x64', self.on)

    def __exit__(self, *a):
        jax.config.update('jax_enable_x64', self.prev)


def code_paths(idx, S):
    """(..., K+1) path of indices -> one integer (base S, first coordinate most significant); -1 if invalid."""
    idx = np.asarray(idx)
    c = np.zeros(idx.shape[:-1], dtype=np.int64)
    for k in range(idx.shape[-1]):
        c = c * S + idx[..., k]
    return np.where((idx < 0).any(-1) | (idx >= S).any(-1), -1, c)


def bincount(codes, n):
    """Counts with an extra last cell for invalid outcomes."""
    codes = np.asarray(codes)
    codes = np.where((codes < 0) | (codes >= n), n, codes)
    return np.bincount(codes, minlength=n + 1).astype(float)


def with_invalid(p):
    return np.concatenate([np.asarray(p, float), [0.]])


def shrink_by(scn, rules, ok=lambda s: True):
    """Candidate reductions: set one field to a simpler value (numbers only downwards)."""
    for k, v in rules:
        if k not in scn:
            continue
        cur = list(scn[k]) if isinstance(scn[k], (list, tuple)) else scn[k]
        if cur == v or (isinstance(cur, (int, float)) and not isinstance(cur, bool) and v > cur):
            continue
        c = {**scn, k: v}
        if ok(c):
            yield c
