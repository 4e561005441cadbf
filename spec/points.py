"""Reference layouts of points."""
import numpy as np


def circle(f, n, inner, outer, start, z, rng):
    return f(n, (inner, outer), start, z, rng)


def circle_flat(f, n, radius, start, rng):
    return f(n, radius, start, None, rng)


def circle_plain(f, n, radius):
    return f(n, radius)


def equiangular_circle(n, radius, start_angle=0, z=None, rng=None):
    """n points with equal angles between them, each at a distance drawn between the radii"""
    if rng is None:
        rng = np.random.default_rng()
    if isinstance(radius, (int, float)):
        radius = (radius, radius)
    angles = (start_angle + np.arange(n) * (2 * np.pi / n)) % (2 * np.pi)
    r = rng.uniform(radius[0], radius[1], size=n)
    if z is None:
        pos = np.zeros((n, 2))
    else:
        pos = np.zeros((n, 3))
        pos[:, 2] = z
    pos[:, 0:2] = np.stack((r * np.cos(angles), r * np.sin(angles))).T
    return pos
