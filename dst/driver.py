"""Run one of the repository's experiment scripts as a simulated process.

The script runs unmodified, in this interpreter, in a scratch working directory with the layout of ./experiments.  Its
seams: the command line, the working directory, the keys (`jax.random.PRNGKey` goes through the default generator), the
datasets and the network (module attributes replaced for the duration of the run), and every file it writes (each write
of numpy or matplotlib passes through the simulator, which can crash the process there or tear the file)."""
import contextlib
import importlib
import io
import logging
import os
import ast
import runpy
import sys
import warnings
import numpy as np
from dst import env
from dst.core import Violation


class Crash(BaseException):
    """The simulated process dies here."""


def picture(path):
    """what a script handed to plt.imsave"""
    with open(path, 'rb') as h:
        data = h.read()
    if not data.startswith(b'PNG'):
        raise ValueError('torn picture')
    return np.load(io.BytesIO(data[3:]))


class FS:
    """The file-system seam of one simulated process: np.save, np.savez and plt.imsave under `root`."""

    def __init__(self, root, crash_at=None, torn=False, on_write=None):
        self.root, self.crash_at, self.torn, self.n, self.on_write = root, crash_at, torn, 0, on_write
        self.writes = []

    def _path(self, f, ext):
        f = os.path.join(self.root, os.fspath(f))
        p = os.path.realpath(f if f.endswith(ext) else f + ext)
        if not p.startswith(os.path.realpath(self.root) + os.sep):
            raise RuntimeError(f'the script writes outside its scratch directory: {p}')
        return p

    def write(self, f, ext, data):
        if hasattr(f, 'write'):      # an open file
            f.flush()
            f, ext = f.name, ''
        p = self._path(f, ext)
        if self.crash_at is not None and self.n == self.crash_at:
            if self.torn:
                with open(p, 'wb') as h:
                    h.write(data[:len(data) // 2])
            raise Crash(p)
        self.n += 1
        with open(p, 'wb') as h:
            h.write(data)
        self.writes.append(os.path.relpath(p, self.root))
        if self.on_write:
            self.on_write(p)

    def savez(self, file, *args, **kw):
        b = io.BytesIO()
        self.real_savez(b, *args, **kw)
        self.write(file, '.npz', b.getvalue())

    def save(self, file, arr, *a, **kw):
        b = io.BytesIO()
        self.real_save(b, arr, *a, **kw)
        self.write(file, '.npy', b.getvalue())

    def imsave(self, fname, arr, **kw):
        arr = np.asarray(arr)
        if not np.isfinite(arr).all():
            self.bad = fname
        b = io.BytesIO()
        self.real_save(b, arr.astype(np.float32))
        self.write(fname, '.png', b'PNG' + b.getvalue())

    def savefig(self, fname, *a, **kw):
        self.write(fname, '.png', b'FIG')

    def __enter__(self):
        import jax.numpy as jnp
        import matplotlib.figure
        import matplotlib.image
        import matplotlib.pyplot as plt
        self.plt = plt
        self.real_savez, self.real_save = np.savez, np.save
        self.real = []
        for m, n, f in ((np, 'savez', self.savez), (np, 'savez_compressed', self.savez), (jnp, 'savez', self.savez),
                        (np, 'save', self.save), (jnp, 'save', self.save), (plt, 'imsave', self.imsave),
                        (matplotlib.image, 'imsave', self.imsave), (plt, 'savefig', self.savefig),
                        (matplotlib.figure.Figure, 'savefig', lambda fig, *a, **kw: self.savefig(*a, **kw))):
            self.real.append((m, n, getattr(m, n)))
            setattr(m, n, f)
        return self

    def __exit__(self, *a):
        for m, n, f in reversed(self.real):
            setattr(m, n, f)
        self.plt.close('all')


@contextlib.contextmanager
def replaced(pairs):
    """[(module name, attribute, value)] for the duration of the run; in the module that defines the object and in the
    packages that offer it as well, wherever the script imports it from"""
    old = []
    for mod, attr, val in pairs:
        m = importlib.import_module(mod)
        real = getattr(m, attr)
        top = mod.split('.')[0]
        for k, n in list(sys.modules.items()):
            if n is m or k.split('.')[0] == top == 'fbs' and getattr(n, attr, None) is real and \
                    (hasattr(n, '__path__') or k == getattr(real, '__module__', None)):
                old.append((n, attr, getattr(n, attr)))
                setattr(n, attr, val)
    try:
        yield
    finally:
        for m, attr, val in reversed(old):
            setattr(m, attr, val)


def configured(script, root, **consts):
    """the path of a copy of the program whose named module-level constants have these values; None if it has no such constants
    (a program without them is not configured this way)"""
    tree = ast.parse(open(f'{env.REPO}/experiments/{script}').read())
    todo = dict(consts)
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in todo and isinstance(node.value, (ast.Constant, ast.List, ast.Tuple)):
            node.value = ast.copy_location(ast.parse(repr(todo.pop(node.targets[0].id)), mode='eval').body, node.value)
    if todo:
        return None
    path = os.path.join(root, 'configured.py')
    with open(path, 'w') as f:
        f.write(ast.unparse(ast.fix_missing_locations(tree)))
    return path


def run(script, argv, root, fs=None, patches=(), out=None, path=None):
    """-> (globals or None, crashed); `out` receives what the script prints; `path`: a configured copy of the script"""
    source = path or f'{env.REPO}/experiments/{script}'
    cwd, av, old_path = os.getcwd(), sys.argv, list(sys.path)
    import jax
    x64 = jax.config.jax_enable_x64
    out = out or io.StringIO()
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    fs = fs or FS(root)
    try:
        os.chdir(root)
        sys.argv = [script, *[str(a) for a in argv]]
        with fs, replaced(patches), contextlib.redirect_stdout(out), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return runpy.run_path(source, run_name='__main__'), False
            except Crash:
                return None, True
            except SystemExit as e:
                raise Violation('exit', f'{script} {argv} refuses to run: exit {e.code}')
    finally:
        os.chdir(cwd)
        sys.argv, sys.path[:] = av, old_path
        jax.config.update('jax_enable_x64', x64)
