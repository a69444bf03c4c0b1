"""Shared by C06-C08: compare spectra of a live model with the reference equations."""

import numpy as np

from vlib import lattice, refspec

COMP = ('pk_1h', 'pk_2h', 'pk_tot')


def build(cfg):
    from onepower import Spectra

    return Spectra(**cfg)


def compare(which):
    def visit(model, cfg, mem):
        ref = refspec.Ref(model, cfg, mem.setdefault('hod', {}))
        for w in which:
            want = getattr(ref, w)()
            try:
                res = getattr(model, f'power_spectrum_{w}')
            except Exception as e:
                yield f'{w}: raises {type(e).__name__}: {e}'
                continue
            for c, x in zip(COMP, want):
                got = getattr(res, c)
                if w == 'lin' and c != 'pk_tot':
                    continue
                got = np.asarray(got)
                if w == 'mm' and got.shape[:1] == (1,):  # one spectrum for all bins of stellar fractions
                    got = np.broadcast_to(got, (x.shape[0],) + got.shape[1:])
                d = lattice.close(got, x)
                if d:
                    yield f'{w}.{c}: {d}'
            if w in ('gg', 'gm'):
                d = lattice.close(res.galaxy_linear_bias, want[3])
                if d:
                    yield f'{w}.galaxy_linear_bias: {d}'

    return visit


def valid(p):
    if p.get('nonlinear_mode') == 'hmcode' and p.get('hmcode_ingredients') in (None, 'fit'):
        return False
    if p.get('nonlinear_mode') != 'bnl' and p.get('beta_nl') is not None:
        return False
    return True
