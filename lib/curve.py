"""Independent reference of the material ratio (Abbott-Firestone) curve and what is built on it.

The curve is the linear-interpolated quantile function of the heights: with the heights sorted in descending order
h_0 >= ... >= h_{n-1}, the height at material ratio x [%] interpolates the nodes (100*i/(n-1), h_i)."""
import numpy as np

GRID = 10000
DELTA = 100.0 / (GRID - 1)  # resolution of the curve in % material ratio


class Ref:
    def __init__(self, z):
        z = np.sort(np.asarray(z, dtype='float64').ravel())[::-1]
        self.z = z
        self.n = z.size
        self.max, self.min = float(z[0]), float(z[-1])
        self.range = self.max - self.min
        self.nodes = np.linspace(0, 100, self.n) if self.n > 1 else np.array([0.0])
        # integral of h over [0, node_i] / 100
        if self.n > 1:
            seg = (z[1:] + z[:-1]) / 2 * np.diff(self.nodes) / 100
            self.cum = np.concatenate([[0.0], np.cumsum(seg)])
        else:
            self.cum = np.array([0.0])
        self.mean = float(self.cum[-1]) if self.n > 1 else self.max

    def h(self, x):
        return np.interp(x, self.nodes, self.z)

    def integral(self, x):
        """integral of the height from ratio 0 to x (x in %), divided by 100"""
        i = int(np.clip(np.searchsorted(self.nodes, x, side='right') - 1, 0, self.n - 2))
        hx = float(self.h(x))
        return float(self.cum[i] + (self.z[i] + hx) / 2 * (x - self.nodes[i]) / 100)

    def ratio(self, c):
        """interval [lo, hi] of the material ratios at which the curve has height c"""
        if c >= self.max:
            lo = 0.0
        else:
            # first position with h <= c
            i = int(np.searchsorted(-self.z, -c, side='left'))  # first index with z_i <= c
            i = min(i, self.n - 1)
            lo = self._x_between(i - 1, i, c) if i > 0 else 0.0
        if c <= self.min:
            hi = 100.0
        else:
            i = int(np.searchsorted(-self.z, -c, side='right')) - 1  # last index with z_i >= c
            i = max(i, 0)
            hi = self._x_between(i, i + 1, c) if i + 1 < self.n else 100.0
        if c > self.max:
            hi = 0.0
        if c < self.min:
            lo = 100.0
        return lo, hi

    def _x_between(self, i, j, c):
        a, b = self.z[i], self.z[j]
        if a == b:
            return float(self.nodes[i])
        t = (a - c) / (a - b)
        return float(self.nodes[i] + t * (self.nodes[j] - self.nodes[i]))

    def vm(self, p):
        return self.integral(p) - float(self.h(p)) * p / 100

    def vv(self, p):
        return float(self.h(p)) * (100 - p) / 100 - (self.mean - self.integral(p))

    def gap(self, x, cells=3):
        """largest height difference within +-cells curve cells around ratio x"""
        return float(self.h(max(0.0, x - cells * DELTA)) - self.h(min(100.0, x + cells * DELTA)))

    # ---------------------------------------------------------------------------------------------------------------
    def lines(self):
        """For every admissible start of the 40 % window: secant slope, least-squares slope and intercept."""
        x = np.linspace(0, 100, GRID)
        y = self.h(x)
        off = y.mean()
        y = y - off
        starts = np.nonzero(x <= 60.0)[0]
        ends = np.searchsorted(x, x[starts] + 40.0, side='right')  # exclusive
        sec = (np.interp(x[starts] + 40.0, x, y) - y[starts]) / 40.0
        c1 = np.concatenate([[0], np.cumsum(np.ones_like(x))])
        cx = np.concatenate([[0], np.cumsum(x)])
        cy = np.concatenate([[0], np.cumsum(y)])
        cxx = np.concatenate([[0], np.cumsum(x * x)])
        cxy = np.concatenate([[0], np.cumsum(x * y)])
        d = lambda c: c[ends] - c[starts]
        n, sx, sy, sxx, sxy = d(c1), d(cx), d(cy), d(cxx), d(cxy)
        slope = (n * sxy - sx * sy) / (n * sxx - sx * sx)
        icpt = (sy - slope * sx) / n
        return sec, slope, icpt + off

    def candidates(self):
        """(yupper, ylower) of the equivalence line for every start whose secant is (nearly) the flattest one."""
        sec, slope, icpt = self.lines()
        best = sec.max()
        cand = np.nonzero(sec >= best - 1e-9 * self.range / 40)[0]
        if best >= -1e-15 * self.range and np.all(sec[cand] == best):
            cand = cand[:1]  # exact ties: the first occurrence counts
        return icpt[cand], slope[cand] * 100 + icpt[cand]

    def area_above(self, y):
        """area between the curve and the horizontal at height y, left of their intersection (ratio in 0..1)"""
        lo, _ = self.ratio(y)
        return self.integral(lo) - y * lo / 100, lo

    def area_below(self, y):
        _, hi = self.ratio(y)
        return y * (100 - hi) / 100 - (self.mean - self.integral(hi)), hi
