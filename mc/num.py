"""Plain-number helpers for the oracles."""
import math


def close(a, b, rel=1e-9, abs_=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def vclose(u, v, rel=1e-9, abs_=1e-9):
    u, v = list(u), list(v)
    return len(u) == len(v) and all(close(a, b, rel, abs_)
                                    for a, b in zip(u, v))


def tol(*values):
    """Absolute tolerance for results computed from the given magnitudes."""
    m = max([1.0] + [abs(float(v)) for v in values])
    return 1e-9 * m


def pl(v):
    return [float(x) for x in v]
