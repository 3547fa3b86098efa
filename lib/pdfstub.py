"""A small analytic PDF set in LHAPDF format in the scratch directory, standing
in for the sets that the parton package would download."""
import os
import numpy as np

FLAV = [-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 21]
# N, a, b of x f(x) = N x^a (1-x)^b
SHAPE = {1: (2.0, .3, 4.), 2: (3.5, .35, 3.), 3: (.4, .1, 6.), 4: (.25, .05, 7.), 5: (.2, .02, 8.),
         -1: (.6, .1, 6.), -2: (.5, .12, 6.5), -3: (.38, .1, 6.2), -4: (.25, .05, 7.), -5: (.2, .02, 8.), 21: (3., -.1, 5.)}
XMIN = 1e-5


def xf(flavor, x, Q, member=0, variant=0):
    N, a, b = SHAPE[flavor]
    return (N * (1 + .07 * member * np.sign(flavor) + .2 * variant) * x ** (a + .03 * member + .05 * variant * (flavor == 2))
            * (1 - x) ** (b + .2 * member) * (1 + .02 * np.log(Q / 100.) * (1 - 2 * x)))


def write(name, variant=0, members=4, data=None):
    import parton
    d = os.path.join(data or parton.io.data_dir(), name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + '.info'), 'w') as f:
        f.write('SetDesc: toy\nNumMembers: %d\n' % members)
    x = np.logspace(np.log10(XMIN), 0, 80)
    Q = np.array([1., 10., 100., 300., 1000., 3000., 13000.])
    for m in range(members):
        rows = [' '.join('%.8e' % xf(fl, xx, q, m, variant) for fl in FLAV) for xx in x for q in Q]
        with open(os.path.join(d, '%s_%04d.dat' % (name, m)), 'w') as f:
            f.write('PdfType: central\nFormat: lhagrid1\n---\n%s\n%s\n%s\n%s\n---\n' % (
                ' '.join('%.8e' % v for v in x), ' '.join('%.8e' % v for v in Q), ' '.join(map(str, FLAV)), '\n'.join(rows)))
