"""Reference shapes: which points belong to them, how big they are, which grid and which random points they give."""
import numpy as np
import matplotlib.patches as patches


def own(rng):
    return rng if rng is not None else np.random.default_rng()


def length(x):
    return np.sqrt(np.sum(x ** 2, axis=-1))


def grid(axes):
    return np.concatenate([g.flatten()[:, None] for g in np.meshgrid(*axes)], axis=-1)


def axes_within(sides, spacing):
    """as many points as fit with the spacing, the rest of the side is left over equally at both ends"""
    num = np.floor(sides / spacing)
    assert min(num) >= 1
    out = []
    for n, step, side in zip(num, spacing, sides):
        ax = np.arange(n) * step
        out.append(ax + (side - ax[-1]) / 2)
    return out


def lifted(points, z):
    """points of a plane at height z"""
    return np.concatenate((points, np.full((points.shape[0], 1), z)), axis=-1)


class CombinedRegion:
    def __init__(self, regions, rng=None):
        self.rng = own(rng)
        self.parts = regions
        for r in regions:
            fixed = r.equally_spaced_points()
            sampled = r.sample_points(100)
            for other in regions:
                if other is not r:
                    assert not np.any(other.is_in_region(fixed))
                    assert not np.any(other.is_in_region(sampled))
        self.volumes = np.array([r.volume for r in regions])
        self.volume = np.sum(self.volumes)

    def is_in_region(self, c):
        return np.any([r.is_in_region(c) for r in self.parts], axis=0)

    def equally_spaced_points(self):
        return np.concatenate([r.equally_spaced_points() for r in self.parts], axis=0)

    def sample_points(self, n):
        upto = np.cumsum(self.volumes / self.volume)
        u = self.rng.uniform(0, 1, n)
        which, counts = np.unique(np.sum(u[None, :] >= upto[:-1, None], axis=0), return_counts=True)
        points = np.concatenate([self.parts[i].sample_points(k) for i, k in zip(which, counts)])
        assert points.shape[0] == n
        return points


class Cuboid:
    def __init__(self, side_lengths, center=(0, 0, 0), point_spacing=(1, 1, 1), rng=None):
        self.rng = own(rng)
        self.sides, self.center = np.array(side_lengths), np.array(center)
        self.low = self.center - self.sides / 2
        self.high = self.center + self.sides / 2
        self.low_lim, self.high_lim = self.low, self.high
        self.volume = np.prod(side_lengths)
        self.spacing = point_spacing

    def is_in_region(self, c, padding=[[0, 0, 0]]):
        ok = np.logical_and(c >= self.low[None, :] - padding, c <= self.high[None, :] + padding)
        return np.logical_and(np.logical_and(ok[:, 0], ok[:, 1]), ok[:, 2])

    def equally_spaced_points(self, spacing=None):
        if spacing is None:
            spacing = self.spacing
        if isinstance(spacing, (int, float)):
            spacing = np.ones(3) * spacing
        else:
            spacing = np.array(spacing)
        return grid(axes_within(self.sides, spacing)) + self.low

    def sample_points(self, n):
        return self.rng.uniform(np.array(self.low)[None, :], np.array(self.high)[None, :], size=(n, 3))


class Rectangle:
    def __init__(self, side_lengths, center, point_spacing=(1, 1), spatial_dim=3, rng=None):
        self.rng = own(rng)
        assert spatial_dim in (2, 3)
        assert len(center) == spatial_dim
        self.sides, self.center, self.spacing, self.dim = np.array(side_lengths), np.array(center), np.array(point_spacing), spatial_dim
        self.low = self.center[:2] - self.sides / 2
        self.high = self.center[:2] + self.sides / 2
        self.volume = np.prod(side_lengths)

    def is_in_region(self, c, padding=[[0, 0]]):
        ok = np.logical_and(c[:, :2] >= self.low[None, :] - padding, c[:, :2] <= self.high[None, :] + padding)
        inside = np.logical_and(ok[:, 0], ok[:, 1])
        if self.dim == 3:
            inside = np.logical_and(inside, np.isclose(c[:, 2], self.center[2]))
        return inside

    def equally_spaced_points(self):
        points = grid(axes_within(self.sides, self.spacing)) + self.low
        if self.dim == 3:
            points = np.concatenate((points, np.full((points.shape[0], 1), self.center[-1])), axis=-1)
        return points

    def sample_points(self, n):
        x = self.rng.uniform(self.low[0], self.high[0], n)
        y = self.rng.uniform(self.low[1], self.high[1], n)
        points = np.stack((x, y), axis=1)
        if self.dim == 3:
            points = np.concatenate((points, self.center[2] * np.ones((points.shape[0], 1))), axis=-1)
        return points


class Disc:
    def __init__(self, radius, center, point_spacing=(1, 1), spatial_dim=3, rng=None):
        self.rng = own(rng)
        assert spatial_dim in (2, 3)
        assert len(center) == spatial_dim
        self.radius, self.center, self.spacing, self.dim = radius, np.array(center), np.array(point_spacing), spatial_dim
        self.volume = np.pi * radius ** 2

    def is_in_region(self, c):
        inside = length(c[:, :2] - self.center[None, :2]) <= self.radius
        if self.dim == 3:
            inside = np.logical_and(inside, np.isclose(c[:, 2], self.center[2]))
        return inside

    def equally_spaced_points(self):
        num = np.ceil(np.array([self.radius * 2, self.radius * 2]) / self.spacing)
        axes = [np.arange(n) * step for n, step in zip(num, self.spacing)]
        points = np.concatenate([g.reshape(-1)[:, None] for g in np.meshgrid(*axes)], axis=-1)
        points -= ((num - 1) * self.spacing / 2)[None, :]
        points = points[length(points) <= self.radius, :]
        if self.dim == 3:
            points = np.concatenate((points, np.zeros((points.shape[0], 1))), axis=-1)
        points += self.center[None, :]
        return points

    def sample_points(self, n):
        r = self.radius * np.sqrt(self.rng.uniform(0, 1, n))
        angle = 2 * np.pi * self.rng.uniform(0, 1, n)
        points = np.stack((self.center[0] + r * np.cos(angle), self.center[1] + r * np.sin(angle)), axis=1)
        if self.dim == 3:
            points = np.concatenate((points, self.center[2] * np.ones((points.shape[0], 1))), axis=-1)
        return points


class Ball:
    def __init__(self, radius, center, point_spacing=(1, 1, 1), rng=None):
        self.rng = own(rng)
        self.radius, self.center, self.spacing = radius, np.array(center), np.array(point_spacing)
        assert self.center.ndim == 1
        self.volume = np.pi * (4 / 3) * radius ** 3

    def is_in_region(self, c):
        return length(c - self.center[None, :]) <= self.radius

    def equally_spaced_points(self):
        d = 2 * self.radius
        points = Cuboid((d, d, d), point_spacing=self.spacing).equally_spaced_points()
        points += self.center[None, :]
        return points[self.is_in_region(points), :]

    def sample_points(self, n):
        have = 0
        points = np.zeros((n, 3))
        done = False
        while not done:
            new = self.rng.uniform(low=-self.radius, high=self.radius, size=(n, 3))
            new = new[length(new) <= self.radius, :]
            k = min(new.shape[0], n - have)
            points[have:have + k, :] = new[:k, :]
            have += k
            if have >= n:
                done = True
        points += self.center
        return points


class Cylinder:
    def __init__(self, radius, height, center=(0, 0, 0), point_spacing=(1, 1, 1), rng=None):
        self.rng = own(rng)
        self.radius, self.height, self.center, self.spacing = radius, height, np.array(center), np.array(point_spacing)
        self.volume = np.pi * radius ** 2 * height

    def is_in_region(self, c):
        if c.ndim == 1:
            c = c[None, :]
        assert c.ndim == 2
        assert c.shape[1] == 3
        c = c - self.center[None, :]
        flat = length(c[:, :2]) <= self.radius
        return np.logical_and(np.logical_and(-self.height / 2 <= c[:, 2], self.height / 2 >= c[:, 2]), flat)

    def equally_spaced_points(self):
        num = np.ceil(np.array([self.radius * 2, self.radius * 2, self.height]) / self.spacing)
        axes = [np.arange(n) * step for n, step in zip(num, self.spacing)]
        points = np.stack(np.meshgrid(*axes, indexing="ij"), axis=-1).reshape(-1, 3)
        points -= ((num - 1) * self.spacing / 2)[None, :]
        points = points[length(points[:, :2]) <= self.radius, :]
        points += self.center[None, :]
        return points

    def sample_points(self, n):
        r = self.radius * np.sqrt(self.rng.uniform(0, 1, n))
        angle = 2 * np.pi * self.rng.uniform(0, 1, n)
        h = self.rng.uniform(-self.height / 2, self.height / 2, n)
        return np.stack((self.center[0] + r * np.cos(angle), self.center[1] + r * np.sin(angle), self.center[2] + h), axis=1)


# ------------------------------------------------------------------ drivers
def flat(R, size, center, spacing, dim, rng, c, n):
    r = R(size, center, spacing, dim, rng)
    return r.volume, r.is_in_region(c), r.equally_spaced_points(), r.sample_points(n), r.sample_points(n)


def flat_plain(R, size, center, c, n):
    r = R(size, center)
    return r.volume, r.is_in_region(c), r.equally_spaced_points()


def padded(R, size, center, pad, c):
    return R(size, center).is_in_region(c, pad)


def solid(R, size, center, spacing, rng, c, n):
    r = R(size, center, spacing, rng)
    return r.volume, r.is_in_region(c), r.equally_spaced_points(), r.sample_points(n), r.sample_points(n)


def solid_plain(R, size, center, c):
    r = R(size, center)
    return r.volume, r.is_in_region(c), r.equally_spaced_points()


def spaced(R, size, center, spacing):
    r = R(size, center)
    return r.equally_spaced_points(spacing)


def tall(R, size, height, center, spacing, rng, c, n):
    r = R(size, height, center, spacing, rng)
    return r.volume, r.is_in_region(c), r.equally_spaced_points(), r.sample_points(n), r.sample_points(n)


def tall_plain(R, size, height, c):
    r = R(size, height)
    return r.volume, r.is_in_region(c), r.equally_spaced_points()


def combined(R, parts, rng, c, n):
    r = R(parts, rng)
    return r.volume, r.volumes, r.is_in_region(c), r.equally_spaced_points(), r.sample_points(n)


def combined_two(R, a, b, rng, c, n):
    r = R([a, b], rng)
    return r.volume, r.is_in_region(c), r.equally_spaced_points(), r.sample_points(n)
