"""Finite alphabets of point positions and values used by the checks (no randomness)."""
import itertools, math
import numpy as np

# --- small-scope sites -------------------------------------------------------------------
# Several scales, so that the trees built on a handful of points have big cells, tiny cells,
# coincident points and cells that are wholly inside one separation bin.
FLAT_SITES = [(0., 0.), (0.11, 0.03), (1.013, 0.), (1.087, 0.119), (0.21, 2.317),
              (3.137, 2.911), (-2.093, 1.171), (1.013, -1.531)]
SPHERE_SITES = [(0.3, 0.1), (0.9, 0.35), (359.2, -0.6), (40.7, 30.3), (41.1, 31.1),
                (183.3, 80.9), (220.7, -30.3), (181.7, -11.2)]     # ra, dec in degrees (3 and 6: antipodal)
TRI_SITES = [(0.02, 0.01, 1.7), (0.13, 0.05, 1.77), (1.013, 0.2, 2.1), (1.087, 0.319, 2.93),
             (0.21, 2.317, -1.3), (3.137, 2.911, 3.3), (-2.093, 1.171, 0.61), (1.31, -1.531, -2.7)]
RDIST = [1.0, 1.13, 1.41, 0.97, 2.3, 1.21, 1.77, 0.88]            # distances for ra,dec,r


def multisets(nsites, maxn, minn=1):
    for n in range(minn, maxn + 1):
        for c in itertools.combinations_with_replacement(range(nsites), n):
            yield list(c)


def _halton(i, b):
    f, r = 1.0, 0.0
    while i > 0:
        f /= b
        r += f * (i % b)
        i //= b
    return r


def structured(name, n, k=0):
    """Deterministic 3-d point sets in roughly [-4,4]^3 (flat uses x,y only)."""
    p = np.zeros((n, 3))
    if name == 'grid':
        m = int(math.ceil(math.sqrt(n)))
        for i in range(n):
            p[i] = (i % m) * 0.737 + 0.013 * k, (i // m) * 0.691, 0.3 * ((i * 7) % 5)
        p[:, :2] -= 0.35 * m
    elif name == 'line':
        for i in range(n):
            p[i] = 0.171 * i - 0.085 * n, 0.0, 1.0
        if k:
            p = p[:, [1, 0, 2]]
    elif name == 'clusters':
        cen = [(-2.3, 1.9, 1.1), (2.7, 2.1, -1.9), (0.2, -2.6, 2.7), (3.1, -1.2, 0.4), (-0.3, 0.4, -2.2)]
        for i in range(n):
            c = cen[(i + k) % 5]
            s = 0.02 if (i % 5) < 2 else 0.23
            p[i] = [c[d] + s * (_halton(i + 1, (2, 3, 5)[d]) - 0.5) for d in range(3)]
    elif name == 'ring':
        for i in range(n):
            t = 2 * math.pi * (i + 0.31 * k) / n
            r = 2.9 + 0.17 * (i % 3)
            p[i] = r * math.cos(t), r * math.sin(t), 0.9 * math.sin(3 * t)
    elif name == 'geom':
        for i in range(n):
            r = 0.004 * 1.31 ** i
            while r > 5.0:
                r /= 977.0
            t = 2.399963 * i + 0.7 * k
            p[i] = r * math.cos(t), r * math.sin(t), 0.4 * r * math.cos(1.7 * t)
    elif name == 'halton':
        for i in range(n):
            p[i] = [8 * _halton(i + 1 + 37 * k, b) - 4 for b in (2, 3, 5)]
    elif name == 'dups':
        for i in range(n):
            j = i // 3 + k
            p[i] = [7 * _halton(j + 1, b) - 3.5 for b in (2, 3, 5)]
    elif name == 'collapsed':      # everything at two places
        for i in range(n):
            p[i] = (0.77, 0.31, 1.2) if i % 3 else (-0.41, 0.1, 0.9)
    else:
        raise KeyError(name)
    return p


STRUCTS = ['grid', 'line', 'clusters', 'ring', 'geom', 'halton', 'dups', 'collapsed']

# --- values ------------------------------------------------------------------------------
_W = [1., 2., 0.5, 3., 1.5, 0.25, 4., 1., 0.75]
_V = [1, -2, 3, 2, -1, 0, -3, 1, 2, -3, 4]


def values(n, role, wtype):
    """Columns for n points.  Every number is a small dyadic rational, exact in float32."""
    d = {}
    i = np.arange(n)
    if wtype == 'unit':
        pass
    else:
        w = np.array([_W[(3 * j + 2 * role) % len(_W)] for j in i]) if n else np.zeros(0)
        if wtype == 'zeros' and n > 1:
            w[(i + role) % 3 == 1] = 0.
        d['w'] = w
    for m, name in enumerate(['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']):
        d[name] = np.array([float(_V[(5 * j + 3 * m + 4 * role + (j * j) % 7) % len(_V)]) for j in i])
    return d


def positions(spec, coords):
    """spec -> dict of Catalog position kwargs.  spec: ['ms', [site indices]] or ['st', name, n, k]."""
    if spec[0] == 'ms':
        idx = spec[1]
        if coords == 'flat':
            a = np.array([FLAT_SITES[i] for i in idx])
            return dict(x=a[:, 0], y=a[:, 1])
        if coords == 'sphere':
            a = np.array([SPHERE_SITES[i] for i in idx])
            return dict(ra=a[:, 0], dec=a[:, 1], ra_units='deg', dec_units='deg')
        if coords == '3d':
            a = np.array([TRI_SITES[i] for i in idx])
            return dict(x=a[:, 0], y=a[:, 1], z=a[:, 2])
        if coords == 'radecr':
            a = np.array([SPHERE_SITES[i] for i in idx])
            return dict(ra=a[:, 0], dec=a[:, 1], r=np.array([RDIST[i] for i in idx]),
                        ra_units='deg', dec_units='deg')
    else:
        _, name, n, k = spec
        p = structured(name, n, k)
        if coords == 'flat':
            return dict(x=p[:, 0].copy(), y=p[:, 1].copy())
        if coords == '3d':
            return dict(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy() + 5.)
        # a cap around (ra,dec) = (17,33) of a few degrees, or a wide one for k>=10
        s = 9.0 if k >= 10 else 1.0
        dec = 33. + s * p[:, 1]
        ra = 17. + s * p[:, 0] / np.cos(np.radians(dec))
        d = dict(ra=ra, dec=dec, ra_units='deg', dec_units='deg')
        if coords == 'radecr':
            d['r'] = 1.3 + 0.1 * p[:, 2]
        return d
    raise KeyError(coords)


def catalog_kwargs(spec, coords, role, wtype, cols=None):
    d = positions(spec, coords)
    n = len(d.get('x', d.get('ra')))
    v = values(n, role, wtype)
    if cols is not None:
        v = {k: a for k, a in v.items() if k == 'w' or k in cols}
    d.update(v)
    return d
