"""The seams of the image experiments: a scratch ./experiments directory, synthetic pictures, and a network whose score is
known in closed form (pictures whose pixels are jointly Gaussian: a common level plus noise)."""
import os
import numpy as np
import jax
import jax.numpy as jnp
from dst import driver

T = 2.
DIRS = ['checkpoints', 'datasets', 'tmp_figs', 'sb_imgs/results', 'toy/results', 'sb/results'] + \
    [f'imgs/results_{k}/{a}' for k in ('supr', 'inpainting') for a in ('imgs', 'arrs')]


def layout(root):
    """-> the working directory of the scripts, below `root` (the MNIST file lies next to it, at ../datasets)"""
    cwd = os.path.join(root, 'experiments')
    for d in DIRS:
        os.makedirs(os.path.join(cwd, d), exist_ok=True)
    os.makedirs(os.path.join(root, 'datasets'), exist_ok=True)
    return cwd


def write_celeba(cwd, res, pics):
    """`pics`: (n >= 1000, res, res, 3), the first 1000 are the test set"""
    np.save(f'{cwd}/datasets/celeba_hq{res}.npy', pics)


def write_mnist(root, train, test):
    np.savez(f'{root}/datasets/mnist.npz', X=train, X_test=test)


def levels(r, n, shape, m, s2, c2):
    """n pictures of the Gaussian world: level + noise"""
    return (m + np.sqrt(c2) * r.normal(size=(n,) + (1,) * len(shape)) + np.sqrt(s2) * r.normal(size=(n, *shape))).astype(np.float32)


def alpha(sde, t, T=T):
    """coefficient of the clean picture at time t"""
    return jnp.exp(-.5 * (t if sde == 'const' else .02 * t + (5. - .02) * t ** 2 / (2 * T)))


class Net:
    """Stands for UNet and make_st_nn: the exact score of the Gaussian world with parameters (m, s2, c2) = param."""

    def __init__(self, sde, expect=None):
        self.sde, self.expect, self.params, self.dims = sde, expect, [], None

    def unet(self, *a, **kw):
        return 'stub'

    def make_st_nn(self, key, nn=None, dim_in=None, batch_size=None, **kw):
        self.dims = tuple(dim_in)

        def nn_score(x, t, param):
            if not isinstance(param, jax.core.Tracer):
                self.params.append(np.asarray(param))
            m, s2, c2 = param[0], param[1], param[2]
            n = int(np.prod(self.dims))
            a = alpha(self.sde, t)
            z = x - a * m
            v, c = a ** 2 * s2 + 1 - a ** 2, a ** 2 * c2
            return -(z - c / (v + n * c) * jnp.sum(z, axis=(-3, -2, -1), keepdims=True)) / v
        return jnp.zeros(3), None, nn_score

    def patches(self):
        return [('fbs.nn.unet', 'UNet', self.unet), ('fbs.nn.models', 'make_st_nn', self.make_st_nn)]


def checkpoint(cwd, dataset, sde, epoch, param, ema):
    np.savez(f'{cwd}/checkpoints/{dataset}_{sde}_{epoch}.npz', param=np.asarray(param, np.float32),
             ema_param=np.asarray(ema, np.float32))


def posterior(m, s2, c2, v):
    """mean and variance (marginal, common) of a hidden pixel given the visible values v"""
    n = v.size
    g = c2 / (s2 + n * c2)
    return m + g * (v - m).sum(), s2 + c2 - n * c2 * g, c2 - n * c2 * g


def run(script, argv, cwd, net, fs=None, patches=()):
    return driver.run(script, argv, cwd, fs=fs, patches=net.patches() + list(patches))
