"""Reference trajectories: positions that depend on the time and the parameters only."""
import numpy as np


class Trajectory:
    def __init__(self, pos_func):
        self.f = pos_func

    def current_pos(self, n):
        return self.f(n)


class TrajectoryCollection:
    def __init__(self, trajectories):
        self.parts = trajectories

    def current_pos(self, n):
        return np.concatenate([t.current_pos(n) for t in self.parts], axis=0)


class LinearTrajectory:
    """a closed polyline, traversed once per period"""
    def __init__(self, points, period, samplerate, mode="constant_speed"):
        if isinstance(points, (list, tuple)):
            points = np.array(points)
        if not np.allclose(points[-1, :], points[0, :]):
            points = np.concatenate((points, points[:1, :]), axis=0)
        self.points, self.total = points, period * samplerate
        if mode == "constant_speed":
            dist = np.sqrt(np.sum((points[:-1, :] - points[1:, :]) ** 2, axis=-1))
            assert all(dist > 0)
            self.each = dist / (np.sum(dist) / (samplerate * period))
            self.ends = np.concatenate(([0], np.cumsum(self.each)))
        elif mode == "constant_time":
            self.each = period / (points.shape[0] - 1) * samplerate
            self.ends = np.arange(points.shape[0]) * self.each
        else:
            raise ValueError
        self.mode = mode

    def current_pos(self, n):
        t = n % self.total
        i = np.argmax(t < self.ends)
        # how far on the way from point i-1 to point i
        if self.mode == "constant_speed":
            w = (t - self.ends[i - 1]) / self.each[i - 1]
        else:
            w = (t - self.ends[i - 1]) / self.each
        return (self.points[i - 1, :] * (1 - w) + self.points[i, :] * w)[None, :]

    def plot(self, ax, symbol, label, tot=None):
        p = self.points
        if tot is not None and tot < self.total:
            p = p[:np.argmax(tot < self.ends), :]
        ax.plot(p[:, 0], p[:, 1], marker=symbol, linestyle="dashed", label=label, alpha=0.8)


class CircularTrajectory:
    """around the centre once per angle period, from the outer radius to the inner one and back once per radial period"""
    def __init__(self, radius, center, radial_period, angle_period, samplerate, start_angle=0):
        assert radius[1] - radius[0] >= 0
        self.inner, self.outer, self.center = radius[0], radius[1], center
        self.lap, self.swing, self.start = angle_period * samplerate, radial_period * samplerate, start_angle
        self.longest = samplerate * max(radial_period, angle_period)

    def current_pos(self, n):
        angle = self.start + 2 * np.pi * ((n % self.lap) / self.lap)
        u = (n % self.swing) / self.swing
        if u < 0.5:
            r = self.inner + (self.outer - self.inner) * (1 - 2 * u)
        else:
            r = self.inner + (self.outer - self.inner) * (2 * u - 1)
        return np.array([[r * np.cos(angle), r * np.sin(angle), 0]]) + self.center

    def plot(self, ax, symbol="o", label="", tot=None):
        times = np.arange(0, self.longest, max(self.longest // 1000, 1))
        pos = np.zeros((times.shape[0], 3))
        for i in range(times.shape[0]):
            pos[i, :] = np.squeeze(self.current_pos(times[i]))
        ax.plot(pos[:, 0], pos[:, 1], marker=symbol, linestyle="dashed", label=label, alpha=0.8)


# ------------------------------------------------------------------ drivers
def given(T, f, n, m):
    t = T(f)
    return t.current_pos(n), t.current_pos(m)


def several(T, a, b, n, m):
    t = T([a, b])
    return t.current_pos(n), t.current_pos(m)


def any_number(T, parts, n):
    return T(parts).current_pos(n)


def linear(T, points, period, rate, mode, n, m, k):
    t = T(points, period, rate, mode)
    x = t.current_pos(n)
    y = t.current_pos(m)
    return x, y, t.current_pos(k)


def linear_plain(T, points, period, rate, n):
    return T(points, period, rate).current_pos(n)


def listed(T, p0, p1, p2, period, rate, n):
    return T([p0, p1, p2], period, rate).current_pos(n)


def circular(T, inner, outer, center, radial, angular, rate, start, n, m, k):
    t = T((inner, outer), center, radial, angular, rate, start)
    x = t.current_pos(n)
    y = t.current_pos(m)
    return x, y, t.current_pos(k)


def circular_plain(T, radius, center, radial, angular, rate, n):
    return T(radius, center, radial, angular, rate).current_pos(n)


def linear_drawn(T, points, period, rate, mode, ax, symbol, label, tot):
    T(points, period, rate, mode).plot(ax, symbol, label, tot)


def circular_drawn(T, radius, center, radial, angular, rate, start, ax, symbol, label, tot):
    T(radius, center, radial, angular, rate, start).plot(ax, symbol, label, tot)
