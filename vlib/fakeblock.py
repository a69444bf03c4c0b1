"""A stand-in for the CosmoSIS data block (CosmoSIS itself is not installed)."""

import importlib.util
import os
import sys
import types

import numpy as np

OPTION_SECTION = 'module_options'


class BlockError(ValueError):
    pass


class Block:
    """Values by (section, name), case-insensitive, with the typed accessors modules use."""

    def __init__(self, values=()):
        self.v, self.meta = {}, {}
        for (s, n), x in dict(values).items():
            self[s, n] = x

    @staticmethod
    def k(s, n):
        return (str(s).lower(), str(n).lower())

    def copy(self):
        b = Block()
        b.v = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in self.v.items()}
        b.meta = dict(self.meta)
        return b

    def has_value(self, s, n):
        return self.k(s, n) in self.v

    def has_section(self, s):
        return any(k[0] == str(s).lower() for k in self.v)

    def __contains__(self, sn):
        return self.k(*sn) in self.v

    def __getitem__(self, sn):
        try:
            x = self.v[self.k(*sn)]
        except KeyError:
            raise BlockError(f'{sn} not found') from None
        return x.copy() if isinstance(x, np.ndarray) else x

    def __setitem__(self, sn, x):
        self.v[self.k(*sn)] = np.array(x) if isinstance(x, (np.ndarray, list, tuple)) else x

    def get(self, s, n):
        return self[s, n]

    def _typed(self, s, n, default, kind):
        if not self.has_value(s, n):
            if default is None:
                raise BlockError(f'{s}, {n} not found')
            return default
        x = self[s, n]
        if kind is float and isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
            return float(x)
        if not isinstance(x, kind):
            raise BlockError(f'{s}, {n} has the wrong type')
        return x

    def get_double(self, s, n, default=None):
        return self._typed(s, n, default, float)

    def get_int(self, s, n, default=None):
        return self._typed(s, n, default, int)

    def get_string(self, s, n, default=None):
        return self._typed(s, n, default, str)

    def get_bool(self, s, n, default=None):
        return self._typed(s, n, default, bool)

    def get_double_array_1d(self, s, n):
        return self[s, n]

    def get_grid(self, s, x, y, z):
        return self[s, x], self[s, y], self[s, z]

    def put(self, s, n, x):
        self[s, n] = x

    put_double = put_int = put_string = put_bool = put_double_array_nd = put

    def put_double_array_1d(self, s, n, x):
        x = np.asarray(x)
        if x.ndim != 1:
            raise BlockError(f'{s}, {n} is not one-dimensional')
        self[s, n] = x

    replace_double_array_1d = put_double_array_1d

    def put_grid(self, s, nx, x, ny, y, nz, z):
        x, y, z = np.asarray(x), np.asarray(y), np.asarray(z)
        if z.shape != (x.size, y.size):
            raise BlockError(f'{s}, {nz}: grid {z.shape} for axes {x.size}, {y.size}')
        self[s, nx], self[s, ny], self[s, nz] = x, y, z

    replace_grid = put_grid

    def get_metadata(self, s, n, key):
        try:
            return self.meta[self.k(s, n) + (key,)]
        except KeyError:
            raise BlockError(f'{s}, {n} has no {key}') from None

    def put_metadata(self, s, n, key, x):
        self.meta[self.k(s, n) + (key,)] = str(x)

    replace_metadata = put_metadata


class _Names:
    def __getattr__(self, n):
        return n


def install():
    if 'cosmosis.datablock' in sys.modules:
        return
    pkg, db = types.ModuleType('cosmosis'), types.ModuleType('cosmosis.datablock')
    db.names, db.option_section, db.BlockError, db.DataBlock = _Names(), OPTION_SECTION, BlockError, Block
    pkg.datablock = db
    sys.modules['cosmosis'], sys.modules['cosmosis.datablock'] = pkg, db


def load(path, name):
    """Import a CosmoSIS module file of the repository (its folder on the path, as CosmoSIS does)."""
    install()
    folder = os.path.dirname(path)
    if folder not in sys.path:
        sys.path.append(folder)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def options(**kw):
    return Block({(OPTION_SECTION, n): v for n, v in kw.items()})
