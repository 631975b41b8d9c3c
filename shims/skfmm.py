"""Stand-in for scikit-fmm: first order fast marching, signed distance, with
masked cells impassable."""
import heapq
import math

import numpy as np
from _shimlib import ShimUnsupported


def distance(phi, dx=1.0, self_test=False, order=2, narrow=0.0,
             periodic=False):
    masked = isinstance(phi, np.ma.MaskedArray)
    mask = np.ma.getmaskarray(phi).copy()
    vals = np.asarray(np.ma.getdata(phi), dtype=float).tolist()
    n, m = np.ma.getdata(phi).shape
    msk = mask.tolist()
    hx = hy = float(dx) if np.isscalar(dx) else None
    if hx is None:
        hy, hx = float(dx[0]), float(dx[1])
    INF = float('inf')
    dist = [[INF] * m for _ in range(n)]
    frozen = [[False] * m for _ in range(n)]
    heap = []
    found = False
    for i in range(n):
        for j in range(m):
            if msk[i][j]:
                continue
            v = vals[i][j]
            if v == 0.0:
                dist[i][j] = 0.0
                found = True
                heapq.heappush(heap, (0.0, i, j))
                continue
            acc = 0.0
            for axis, h in ((0, hy), (1, hx)):
                best = INF
                for s in (-1, 1):
                    a, b = (i + s, j) if axis == 0 else (i, j + s)
                    if 0 <= a < n and 0 <= b < m and not msk[a][b] and \
                            v * vals[a][b] < 0:
                        best = min(best, h * abs(v) / (abs(v) + abs(vals[a][b])))
                if best < INF:
                    acc += 1.0 / (best * best)
            if acc > 0:
                found = True
                dist[i][j] = 1.0 / math.sqrt(acc)
                heapq.heappush(heap, (dist[i][j], i, j))
    if not found:
        raise ValueError('the array phi contains no zero contour '
                         '(no zero level set)')

    def solve(i, j):
        sgn = vals[i][j] > 0
        terms = []
        for axis, h in ((0, hy), (1, hx)):
            best = INF
            for s in (-1, 1):
                a, b = (i + s, j) if axis == 0 else (i, j + s)
                if 0 <= a < n and 0 <= b < m and frozen[a][b] and \
                        ((vals[a][b] > 0) == sgn or vals[a][b] == 0):
                    best = min(best, dist[a][b])
            if best < INF:
                terms.append((best, h))
        terms.sort()
        if len(terms) == 2:
            (d1, h1), (d2, h2) = terms
            a = 1 / h1 ** 2 + 1 / h2 ** 2
            b = -2 * (d1 / h1 ** 2 + d2 / h2 ** 2)
            c = d1 ** 2 / h1 ** 2 + d2 ** 2 / h2 ** 2 - 1
            disc = b * b - 4 * a * c
            if disc >= 0:
                r = (-b + math.sqrt(disc)) / (2 * a)
                if r >= d2:
                    return r
        return min(d + h for d, h in terms)

    while heap:
        d, i, j = heapq.heappop(heap)
        if frozen[i][j]:
            continue
        frozen[i][j] = True
        for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= a < n and 0 <= b < m and not frozen[a][b] and \
                    not msk[a][b] and \
                    ((vals[a][b] > 0) == (vals[i][j] > 0) or vals[i][j] == 0):
                if dist[a][b] < INF and any(True for _ in ()):
                    continue
                r = solve(a, b)
                if r < dist[a][b]:
                    dist[a][b] = r
                    heapq.heappush(heap, (r, a, b))
    out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            if not frozen[i][j]:
                # unreachable cells come out masked
                mask[i, j] = True
            else:
                out[i, j] = dist[i][j] if vals[i][j] >= 0 else -dist[i][j]
    if masked or mask.any():
        return np.ma.MaskedArray(out, mask)
    return out


def __getattr__(name):
    raise ShimUnsupported('skfmm.' + name)
