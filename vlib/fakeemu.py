"""A cheap deterministic stand-in for the third-party Dark Emulator.

The emulator itself is not code of this repository and takes seconds per
cosmology; what the checks judge is how onepower drives it and what it does with
the answers.  The stand-in has the same call surface and is a smooth function of
all the cosmological parameters, masses, wavenumber and redshift it is given.
"""

import numpy as np


class _Cosmo:
    def __init__(self, emu):
        self.emu = emu

    def get_Omega0(self):
        return float(1.0 - self.emu.c[2])


class FakeEmulator:
    calls = 0

    def __init__(self):
        self.c = None
        self.cosmo = _Cosmo(self)

    def set_cosmology(self, cparam):
        FakeEmulator.calls += 1
        c = np.asarray(cparam, float).reshape(-1)
        if c.size != 6:
            raise ValueError('cosmology must have 6 parameters')
        lo = np.array([0.0211375, 0.10782, 0.54752, 2.4752, 0.916275, -1.2])
        hi = np.array([0.0233625, 0.13178, 0.82128, 3.7128, 1.012725, -0.8])
        if np.any(c < lo - 1e-12) or np.any(c > hi + 1e-12):
            raise ValueError(f'cosmology outside the range of the emulator: {c}')
        self.c = c.copy()

    def get_sigma8(self):
        c = self.c
        return 0.8 * np.exp(0.5 * (c[3] - 3.0)) * (c[0] / 0.0225) ** -0.1 * (c[1] / 0.12) ** 0.6 * (
            1 + 0.3 * (c[4] - 0.96)
        ) * (1 - 0.2 * (c[5] + 1.0)) * (c[2] / 0.7) ** 0.1

    def get_pklin_from_z(self, k, z):
        c = self.c
        k = np.asarray(k, float)
        return (
            self.get_sigma8() ** 2 * 3e4 * (k / 0.02) ** c[4] / (1 + (k / (0.02 * c[1] / 0.12)) ** 2.6) / (1 + z) ** 1.4
        )

    def _bias(self, m):
        return 0.7 + (m / 10**13.0) ** 0.35 * (0.8 / self.get_sigma8())

    def get_phh_mass(self, k, m1, m2, z):
        c = self.c
        k = np.asarray(k, float)
        p = self.get_pklin_from_z(k, z)
        x = np.log10(m1) + np.log10(m2) - 25.0
        wig = (
            1.0
            + 0.3 * k / (k + 0.3) * (1 + 0.1 * x + 0.05 * (np.log10(m1) - 12.5) * (np.log10(m2) - 12.5))
            + 0.05 * np.sin(6.0 * np.log(k) + x) * (1 + 2.0 * (c[5] + 1.0) + z)
            + 0.1 * (c[0] - 0.0225) / 0.0225
        )
        return self._bias(m1) * self._bias(m2) * p * wig + 20.0 * (1 + 0.1 * (x + 1.0))


def install():
    import onepower.bnl as b

    if getattr(b, 'HAVE_DARKEMU', False):

        class _Mod:
            base_class = FakeEmulator

        b.darkemu = _Mod
        return True
    return False
