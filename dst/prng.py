"""The randomness seam: a pseudo-random generator the simulator controls.

JAX keys are explicit, so the seam already exists: the simulator hands the code under test typed keys of its own
generator.  It is Threefry, except that (a) a chosen fraction of the random words is replaced by the extreme values that
the real generator emits with probability 2^-23 per draw (a uniform of exactly 0, the largest uniform below 1, or a
near-zero one), and (b) every use of a key (drawing, splitting, folding) can be reported to a recorder.

Key layout: uint32[4] = (threefry word 0, threefry word 1, fault mode, fault rate); rate r means one word in r.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import random as jer
from jax._src import prng as _prng

MODES = {'none': 0, 'zero': 1, 'one': 2, 'mix': 3, 'first-zero': 4, 'first-one': 5, 'near-zero': 6}
_recorder = None


def set_recorder(r):
    """r(op, key_words (4,)) is called once per key use, in eager or compiled, batched or unbatched code."""
    global _recorder
    _recorder = r


def _report(op, key):
    if _recorder is not None:   # the recorder must be set before anything is compiled; it can be replaced later
        jax.debug.callback(lambda k: _recorder and _recorder(op, np.asarray(k)), key)


def _tf(words, shape, width):
    return _prng.threefry_random_bits(words, width, shape)


def _seed(seed):
    return jnp.concatenate([_prng.threefry_seed(seed), jnp.zeros(2, jnp.uint32)])


def _split(key, shape):
    _report(f'split{tuple(shape)}', key)
    ks = _prng.threefry_split(key[:2], shape)
    rest = jnp.broadcast_to(key[2:], (*ks.shape[:-1], 2))
    return jnp.concatenate([ks, rest], -1)


def _fold_in(key, data):
    _report('fold', key)
    return jnp.concatenate([_prng.threefry_fold_in(key[:2], data), key[2:]])


def _bits(key, width, shape):
    _report('draw', key)
    bits = _tf(key[:2], shape, width)
    if width not in (32, 64):
        return bits
    n = int(np.prod(shape)) if shape else 1
    salt = _prng.threefry_fold_in(key[:2], jnp.uint32(0x5eed))
    sel = _tf(salt, shape, 32)
    mode, rate = key[2], jnp.maximum(key[3], 1)
    hit = (sel % rate == 0) & (mode > 0)
    first = (jnp.arange(n) == 0).reshape(shape)
    hit = jnp.where((mode == 4) | (mode == 5), first & (_tf(salt, (), 32) % rate == 0), hit)
    zero, one = jnp.zeros((), bits.dtype), ~jnp.zeros((), bits.dtype)
    coin = (sel >> 16) & 1
    val = jnp.where((mode == 2) | (mode == 5) | ((mode == 3) & (coin == 1)), one, zero)
    small = jnp.asarray(1, bits.dtype) << (width - 23 if width == 32 else width - 52)
    val = jnp.where(mode == 6, small, val)
    return jnp.where(hit, val, bits)


SPEC = jer.define_prng_impl(key_shape=(4,), seed=_seed, split=_split, random_bits=_bits, fold_in=_fold_in,
                            name='vsim', tag='vsim')


def keys(seed, n=None, mode='none', rate=1):
    """One key, or n keys, of the simulated generator."""
    base = np.asarray(_prng.threefry_seed(jnp.asarray(seed)))
    if n is not None:
        base = np.asarray(_prng.threefry_split(jnp.asarray(base), (n,)))
    m = np.asarray(MODES[mode] if isinstance(mode, str) else mode, np.uint32)
    rest = np.broadcast_to(np.stack(np.broadcast_arrays(m, np.uint32(rate)), -1), (*base.shape[:-1], 2))
    data = np.concatenate([base, rest.astype(np.uint32)], -1)
    return jax.random.wrap_key_data(jnp.asarray(data, jnp.uint32), impl=SPEC)
