"""Statistical oracles over many simulated executions.

Every comparison is against an exactly known law.  A scenario takes a first batch of lanes; only if some statistic
deviates by more than Z1 standard errors are fresh lanes drawn (`boost` times as many, other seeds), and only if the
*same* statistic deviates by more than Z2 there is it a violation.  Z2 = 6 has a two-sided normal tail of 2e-9.
"""
import math
import numpy as np
from dst.core import Violation

Z1, Z2 = 4.2, 6.0
MINEXP = 40.


class Batch:
    """A set of named statistics with known expectation; accumulates over batches of lanes."""

    def __init__(self):
        self.c = {}
        self.m = {}
        self.bad = []

    # counts: observed cell counts for a known discrete law
    def counts(self, name, counts, probs):
        counts, probs = np.asarray(counts, float).ravel(), np.asarray(probs, float).ravel()
        if name in self.c:
            self.c[name][0][:] += counts
        else:
            self.c[name] = [counts.copy(), probs]

    # means: sample mean of (vector) statistics against the known expectation, empirical or given variance
    def mean(self, name, xs, expected, var=None, tol=0.):
        xs = np.asarray(xs, float)
        n = xs.shape[0]
        s1 = xs.sum(0)
        d = xs - np.asarray(expected, float)
        s2 = (d ** 2).sum(0)
        if name in self.m:
            o = self.m[name]
            o[0] += n
            o[1] = o[1] + d.sum(0)
            o[2] = o[2] + s2
        else:
            self.m[name] = [n, d.sum(0), s2, None if var is None else np.asarray(var, float), tol]

    def zs(self):
        out = {}
        for name, (cnt, p) in self.c.items():
            n = cnt.sum()
            hard = (p <= 0) & (cnt > 0)
            if hard.any():
                i = int(np.argmax(hard))
                out[name + f'[{i}] impossible outcome'] = (math.inf, f'cell {i} has probability 0, observed {cnt[i]}')
            e = n * p
            big = (e >= MINEXP) & (n - e >= MINEXP)
            zz = (cnt[big] - e[big]) / np.sqrt(e[big] * (1 - p[big]))
            idx = np.flatnonzero(big)
            for i, z in zip(idx, zz):
                out[f'{name}[{i}]'] = (float(z), f'observed {cnt[i] / n:.5f} expected {p[i]:.5f} n={int(n)}')
            rest = ~big
            if rest.any() and not rest.all():
                pe, ce = p[rest].sum(), cnt[rest].sum()
                if n * pe >= MINEXP and n * (1 - pe) >= MINEXP:
                    out[f'{name}[rest]'] = (float((ce - n * pe) / math.sqrt(n * pe * (1 - pe))),
                                            f'observed {ce / n:.5f} expected {pe:.5f} n={int(n)}')
                elif ce > n * pe + 30 + 8 * math.sqrt(n * pe + 1):
                    out[f'{name}[rest]'] = (math.inf, f'observed {ce} expected {n * pe:.3f}')
            k = int(big.sum())
            if k > 3:
                x = float(((cnt[big] - e[big]) ** 2 / e[big]).sum())
                df = k - (0 if rest.any() else 1)
                # Wilson-Hilferty
                z = ((x / df) ** (1 / 3) - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df))
                if z > 0:
                    out[f'{name}[chi2]'] = (z, f'chi2 {x:.1f} on {df} df, n={int(n)}')
        for name, (n, s1, s2, var, tol) in self.m.items():
            v = (s2 / n if var is None else var)
            v = np.broadcast_to(np.asarray(v, float), np.shape(s1))
            se = np.sqrt(np.maximum(v, 0) * n)
            s1 = np.asarray(s1)
            # deviations within the stated rounding tolerance (per lane) do not count
            s1 = np.where(np.isfinite(s1), np.sign(s1) * np.maximum(np.abs(s1) - n * tol, 0.), s1)
            for ix in np.ndindex(np.shape(s1)):
                if not math.isfinite(s1[ix]):
                    out[f'{name}{list(ix)}'] = (math.inf, 'not finite')
                elif se[ix] > 0:
                    out[f'{name}{list(ix)}'] = (float(s1[ix] / se[ix]),
                                                f'mean error {s1[ix] / n:.3g}, standard error {se[ix] / n:.3g} n={n}')
                elif s1[ix] != 0:
                    out[f'{name}{list(ix)}'] = (math.inf, f'error {s1[ix] / n} with zero variance')
        return out


def two_stage(rec, sim, seed, boost=10, z1=Z1, z2=Z2, kind='law'):
    """sim(batch, seed) runs one batch of lanes and adds its statistics."""
    from dst.core import subseed
    b = Batch()
    sim(b, subseed(seed, 'stage1'))
    zs = b.zs()
    sus = {k: v for k, v in zs.items() if not abs(v[0]) <= z1}
    rec.log(sorted((k, round(v[0], 6)) for k, v in zs.items()))
    if not sus:
        return zs
    rec.probe('second_stage')
    hard = [k for k, v in sus.items() if math.isinf(v[0])]
    if hard:
        raise Violation(kind + '-impossible', f'{hard[0]}: {sus[hard[0]][1]}', {'stat': hard[0]})
    b2 = Batch()
    for r in range(boost):
        sim(b2, subseed(seed, 'stage2', r))
    zs2 = b2.zs()
    conf = {k: zs2[k] for k in sus if k in zs2 and not abs(zs2[k][0]) <= z2}
    if conf:
        k = max(conf, key=lambda q: abs(conf[q][0]))
        raise Violation(kind, f'{k} deviates by {conf[k][0]:.1f} standard errors: {conf[k][1]}',
                        {'stat': k, 'z1': sus[k][0], 'z2': conf[k][0]})
    return zs
