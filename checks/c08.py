"""C08: matter-shape, shape-shape and galaxy-shape spectra are those of the model equations."""

import numpy as np

from vlib import fakeemu, lattice, space as sp, special

from .c06 import INGR, MODES
from .c07 import hods, scenarios
from .spectra_ref import build, compare, valid


def aligns():
    a = sp.ALIGN
    return [
        dict(align_params=dict(a)),
        dict(align_params=dict(a, mpivot_cen=None, central_ia_depends_on='constant', beta_sat=None, gamma_2h_amplitude=-2.0)),
        dict(align_params=dict(a, satellite_ia_depends_on='constant', mpivot_sat=None, gamma_1h_slope=-2, ell_max=4)),
        dict(align_params={}),
        dict(align_params=dict(a, beta_cen=-0.7, beta_sat=1.1, truncate=True, gamma_1h_amplitude=-0.01, gamma_1h_slope=0)),
    ]  # fmt: skip


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    total = 0
    for n, sc in enumerate(scenarios()):
        base = sp.spectra_base(**sc)
        z, k = base['z_vec'], base['k_vec']
        nm = np.arange(base['Mmin'], base['Mmax'], base['dlog10m']).size
        full = n == 0 or thorough
        hh, aa = hods(thorough), aligns()
        if thorough:
            both = [{**h, **a} for h in hh for a in aa]
        else:  # every population and every alignment, not every pair
            both = [{**hh[x % len(hh)], **aa[(x + n) % len(aa)]} for x in range(len(aa) if n == 0 else 3)]
        slow = [('nonlinear_mode', MODES), ('hmcode_ingredients', INGR), ('_galaxies', both)]
        fast = [
            ('matter_power_lin', [None, sp.plin(1, z, k)]),
            ('response', [False, True]),
            ('t_eff', [0.0, 0.4]),
            ('pointmass', [False, True]),
            ('two_halo_ktrunc_ia', [6.0, None]),
            ('one_halo_ktrunc_ia', [4.0, None, 0.7] if full else [4.0, None]),
        ]
        base['beta_nl'] = sp.beta_nl(1, z.size, k, nm)
        base['matter_power_nl'] = sp.pnl(1, z, k)

        def ok(p):
            return valid(dict(p, beta_nl=None)) and (p['nonlinear_mode'] == 'fortuna' or p['t_eff'] == 0.0)

        total += lattice.decide(r, f'scenario{n}', build, base, slow, fast, compare(['mi', 'ii', 'gi']), ok)
    total += special.decide(r, ['mi', 'ii', 'gi'], special.shapes())
    r.note(lattice_points=total, axes='mode x ingredients x galaxy population x alignment x linear input x response x t_eff x pointmass x truncations x scenario')
    r.assumptions += ['ingredients and the radial alignment transform taken from public attributes (C10, C17 decide those)',
                      'conventions as implemented: centre-satellite II two-halo term counted once, GI uses central galaxies', 'agreement to 1e-7']  # fmt: skip
    return r.finish()
