"""Stand-in for the ``cell_lists`` package.

Contract: ``iter_nearest_neighbors`` yields every unordered pair of points
lying in the same or in adjacent cells of a grid of the given cell size,
exactly once, and no other pair."""
import numpy as np
from _shimlib import ShimUnsupported


def add_to_cells(points, cell_size, *args, **kwargs):
    points = np.asarray(points, dtype=float)
    if len(points) == 0:
        return (np.zeros(0, np.int64), np.zeros(1, np.int64),
                np.zeros(1, np.int64), np.ones(2, np.int64))
    idx = np.floor(points / cell_size).astype(np.int64)
    idx = idx - idx.min(axis=0)
    shape = idx.max(axis=0) + 1
    flat = idx[:, 0] * shape[1] + idx[:, 1]
    n = int(shape[0] * shape[1])
    counts = [0] * n
    flatl = flat.tolist()
    for f in flatl:
        counts[f] += 1
    offsets = [0] * n
    tot = 0
    for k in range(n):
        offsets[k] = tot
        tot += counts[k]
    order = sorted(range(len(flatl)), key=lambda k: flatl[k])
    return (np.array(order, np.int64), np.array(counts, np.int64),
            np.array(offsets, np.int64), np.array(shape, np.int64))


def neighboring_cells(grid_shape, *args, **kwargs):
    n, m = int(grid_shape[0]), int(grid_shape[1])
    out = np.full((n * m, 4), -1, np.int64)
    for i in range(n):
        for j in range(m):
            for k, (di, dj) in enumerate(((0, 1), (1, -1), (1, 0), (1, 1))):
                a, b = i + di, j + dj
                if 0 <= a < n and 0 <= b < m:
                    out[i * m + j, k] = a * m + b
    return out


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices,
                           cells_count, cells_offset):
    points = points_indices.tolist()
    count = cells_count.tolist()
    offset = cells_offset.tolist()
    neigh = neigh_cells.tolist()
    for c in cell_indices.tolist():
        if not count[c]:
            continue
        mine = points[offset[c]:offset[c] + count[c]]
        for a in range(len(mine)):
            for b in range(a + 1, len(mine)):
                yield mine[a], mine[b]
        for d in neigh[c]:
            if d < 0:
                continue
            for i in mine:
                for j in points[offset[d]:offset[d] + count[d]]:
                    yield i, j


def __getattr__(name):
    raise ShimUnsupported('cell_lists.' + name)
