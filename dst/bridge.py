"""Joint finite worlds for the forward-backward Gibbs kernel.

A backward chain (u_k, v_k), k = 0..K, with transitions T[k, v, u, u'] * G[k, v, u, v'] (the product form that the
samplers assume) defines a joint law; its time reversal x_k = u_{K-k}, y_k = v_{K-k} is again Markov and its forward
transition tables are computed by Bayes' rule, so forward noising and backward model are exactly consistent.
"""
import contextlib
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from dst import worlds as W


class Bridge:
    def __init__(self, seed, S, V, K, final=False, conc=1., tz=0., gz=0., marg=False):
        r = np.random.default_rng(seed)
        self.S, self.V, self.K, self.final = S, V, K, final
        self.ts = W.rand_times(r, K)
        self.T = W.rand_probs(r, (2, K, V, S, S), conc, tz)
        self.G = W.rand_probs(r, (2, K, V, S, V), conc, gz)
        self.perm = None
        if marg:  # all steps of v but one are fixed permutations: the ends of the path of v determine it
            j = int(r.integers(K))
            self.perm = np.array([r.permutation(V) for _ in range(K)])
            self.j = j
            for k in range(K):
                if k != j:
                    self.G[:, k] = np.eye(V)[self.perm[k]][None, :, None]
        pv = W.rand_probs(r, (V,), 2.)
        if final:  # u0 ~ N(0, I) independent of v0; the state is the sign of its first coordinate
            assert S == 2
            self.m0 = np.full((S, 1), 0.5) * pv[None]
        else:
            self.m0 = W.rand_probs(r, (S * V,), 1.).reshape(S, V)
        self.M, self.R = [], []
        for e in range(2):
            M = [self.m0]
            for k in range(K):
                M.append(np.einsum('uv,vua,vub->ab', M[-1], self.T[e, k], self.G[e, k]))
            R = []
            for k in reversed(range(K)):  # forward step from (u_{k+1}, v_{k+1}) to (u_k, v_k)
                J = np.einsum('uv,vua,vub->abuv', M[k], self.T[e, k], self.G[e, k])
                s = J.sum((2, 3), keepdims=True)
                J = np.where(s > 0, J / np.where(s > 0, s, 1), 1. / (S * V))
                R.append(J.reshape(S, V, S * V))
            self.M.append(M)
            self.R.append(np.array(R))

    def posterior(self, y0, e):
        p = self.M[e][-1][:, y0]
        return p / p.sum()

    def path_law(self, y0, e):
        """p(u_{0:K} | v_K = y0) over all S^(K+1) paths."""
        S, V, K = self.S, self.V, self.K
        P = np.array(list(itertools.product(range(S), repeat=K + 1)))
        tot = np.zeros(len(P))
        for vs in itertools.product(range(V), repeat=K):
            vs = (*vs, y0)
            w = self.m0[P[:, 0], vs[0]].copy()
            for k in range(K):
                w = w * self.T[e, k, vs[k], P[:, k], P[:, k + 1]] * self.G[e, k, vs[k], P[:, k], vs[k + 1]]
            tot += w
        return P, tot / tot.sum()

    def tables(self):
        f = jnp.asarray
        with np.errstate(divide='ignore'):
            t = dict(ts=f(self.ts), T=f(self.T), lT=f(np.log(self.T)), lG=f(np.log(self.G)), R=f(np.array(self.R)))
        if self.perm is not None:
            a, b = [np.arange(self.V)], [np.arange(self.V)]
            for k in range(self.K):               # the value at time k, given the one at time 0 ...
                a.append(self.perm[k][a[-1]])
            for k in reversed(range(self.K)):     # ... or given the one at time K
                b.append(np.argsort(self.perm[k])[b[-1]])
            t['bridge'] = f(np.array([x if k <= self.j else y for k, (x, y) in enumerate(zip(a, b[::-1]))]))
            t['early'] = f(np.arange(self.K + 1) <= self.j)
        return t


class BridgeModel(W.Model):
    """`final`: the state of u is the sign of the first coordinate, so that u0 may be a standard normal vector."""

    def __init__(self, tab, S, V, K, us, vs, kw, final):
        super().__init__(tab, S, V, K, us, vs, kw)
        self.final = final

    def decu(self, u):
        if not self.final:
            return W.dec(u, self.ushape)
        nd = len(self.ushape)
        return ((u[(...,) + (0,) * nd] if nd else u) > 0).astype(int)

    def encu(self, s):
        if not self.final:
            return W.enc(s, self.ushape)
        return (2. * W.enc(s, ()) - 1.).reshape(s.shape + (1,) * len(self.ushape)) * jnp.ones(self.ushape)

    def transition_sampler(self, us, v, t, key, **kw):
        e, k = self._e(kw), self.k_of(t)
        return self.encu(self.cat(key, self.t['T'][e, k, W.dec(v, self.vshape), self.decu(us)]))

    def transition_logpdf(self, u, us_prev, v_prev, t_prev, **kw):
        e, k = self._e(kw), self.k_of(t_prev)
        return self.t['lT'][e, k, W.dec(v_prev, self.vshape), self.decu(us_prev), self.decu(u)]

    def loglik(self, v, us_prev, v_prev, t_prev, **kw):
        e, k = self._e(kw), self.k_of(t_prev)
        return self.t['lG'][e, k, W.dec(v_prev, self.vshape), self.decu(us_prev), W.dec(v, self.vshape)]

    def fwd_sampler(self, key, x0, y0, **kw):
        """A path of the joint forward noising, as one array (K + 1, du + dv)."""
        e = self._e(kw)
        kp, kn = jax.random.split(key)
        s0 = (self.decu(x0) * self.V + W.dec(y0, self.vshape)).astype(jnp.int32)

        def body(s, inp):
            key_, R = inp
            s = self.cat(key_, R[s // self.V, s % self.V]).astype(s0.dtype)
            return s, s
        _, ss = jax.lax.scan(body, s0, (jax.random.split(kp, self.K), self.t['R'][e]))
        xs, ys = self.encu(ss // self.V), W.enc(ss % self.V, self.vshape)
        if self.final:  # x_K is a standard normal vector with the given sign of the first coordinate
            z = jax.random.normal(kn, self.ushape)
            first = jnp.zeros(self.ushape).at[(0,) * len(self.ushape)].set(1.) if self.ushape else jnp.ones(())
            z = jnp.where(first > 0, jnp.abs(z) * jnp.sign(xs[-1]), z)
            xs = xs.at[-1].set(z)
        xs = jnp.concatenate([x0[None], xs], 0)
        ys = jnp.concatenate([y0[None], ys], 0)
        n = self.K + 1
        return jnp.concatenate([xs.reshape(n, -1), ys.reshape(n, -1)], -1)

    def unpack(self, xy, **kw):
        du = int(np.prod(self.ushape))
        return xy[..., :du].reshape(xy.shape[:-1] + self.ushape), xy[..., du:].reshape(xy.shape[:-1] + self.vshape)

    def bridge(self, y0, yT):
        """The path of y between its ends, in the order of the forward noising."""
        a, b = W.dec(yT, self.vshape), W.dec(y0, self.vshape)      # v at times 0 and K
        v = jnp.where(self.t['early'], self.t['bridge'][:, a], self.t['bridge'][:, b])
        return W.enc(v[::-1], self.vshape)


@contextlib.contextmanager
def bridges():
    """The Doob bridge is replaced by the bridge of the finite world, which the samplers hand over as their `sde`."""
    import fbs.samplers.gibbs as g
    import fbs.sdes.simulators as s
    real = s.doob_bridge_simulator

    def stub(key, sde, x0, xT, ts, integration_nsteps=1, replace=False):
        path = sde.bridge(x0, xT)
        # without replacement the last value of a simulated bridge is not exactly the given one
        return path if replace else path.at[-1].set(W.enc((W.dec(path[-1], sde.vshape) + 1) % sde.V, sde.vshape))
    old = [(m, n, v) for m in (g, s) for n, v in vars(m).items() if v is real]
    try:
        for m, n, _ in old:
            setattr(m, n, stub)
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)
