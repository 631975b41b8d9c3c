import math

import numpy as np
from _shimlib import ShimUnsupported


def _line(r0, c0, r1, c1):
    r0, c0, r1, c1 = int(r0), int(c0), int(r1), int(c1)
    steep = 0
    r, c = r0, c0
    dr, dc = abs(r1 - r0), abs(c1 - c0)
    sc = 1 if c1 - c > 0 else -1
    sr = 1 if r1 - r > 0 else -1
    if dr > dc:
        steep = 1
        c, r = r, c
        dc, dr = dr, dc
        sc, sr = sr, sc
    d = 2 * dr - dc
    rr, cc = [], []
    for _ in range(dc):
        if steep:
            rr.append(c)
            cc.append(r)
        else:
            rr.append(r)
            cc.append(c)
        while d >= 0:
            r += sr
            d -= 2 * dc
        c += sc
        d += 2 * dr
    rr.append(r1)
    cc.append(c1)
    return rr, cc


def line(r0, c0, r1, c1):
    rr, cc = _line(r0, c0, r1, c1)
    return np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)


def _inside(xs, ys, x, y):
    """Crossing test; like scikit-image, lower/left edges count as inside."""
    inside = False
    n = len(xs)
    j = n - 1
    for i in range(n):
        if (((ys[i] <= y) and (y < ys[j])) or ((ys[j] <= y) and (y < ys[i]))):
            if x < (xs[j] - xs[i]) * (y - ys[i]) / (ys[j] - ys[i]) + xs[i]:
                inside = not inside
        j = i
    return inside


def polygon(r, c, shape=None):
    r = [float(v) for v in np.asarray(r).ravel()]
    c = [float(v) for v in np.asarray(c).ravel()]
    minr, maxr = int(max(0, min(r))), int(math.ceil(max(r)))
    minc, maxc = int(max(0, min(c))), int(math.ceil(max(c)))
    if shape is not None:
        maxr, maxc = min(shape[0] - 1, maxr), min(shape[1] - 1, maxc)
    rr, cc = [], []
    for i in range(minr, maxr + 1):
        for j in range(minc, maxc + 1):
            if _inside(c, r, j, i):
                rr.append(i)
                cc.append(j)
    return np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)


def polygon_perimeter(r, c, shape=None, clip=False):
    if clip:
        raise ShimUnsupported('polygon_perimeter clip')
    r = [int(round(v)) for v in np.asarray(r).ravel().tolist()]
    c = [int(round(v)) for v in np.asarray(c).ravel().tolist()]
    if r[0] != r[-1] or c[0] != c[-1]:
        r.append(r[0])
        c.append(c[0])
    rr, cc = [], []
    for i in range(len(r) - 1):
        a, b = _line(r[i], c[i], r[i + 1], c[i + 1])
        rr.extend(a)
        cc.extend(b)
    rr, cc = np.array(rr, dtype=np.intp), np.array(cc, dtype=np.intp)
    if shape is not None:
        ok = (rr >= 0) & (rr < shape[0]) & (cc >= 0) & (cc < shape[1])
        rr, cc = rr[ok], cc[ok]
    return rr, cc


def __getattr__(name):
    raise ShimUnsupported('skimage.draw.' + name)
