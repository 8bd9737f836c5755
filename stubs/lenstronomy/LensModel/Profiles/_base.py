"""Spherical profile: everything derived from a 3D density by quadrature."""
import numpy as np

_U, _W = np.polynomial.legendre.leggauss(48)

def _quad_log(f, a, b):
    """integral of f over [a, b] (a > 0), Gauss-Legendre in log r"""
    la, lb = np.log(a), np.log(b)
    t = 0.5 * (lb - la) * _U + 0.5 * (lb + la)
    r = np.exp(t)
    return 0.5 * (lb - la) * np.sum(_W * f(r) * r)

def _many(f, r):
    """f at every r; a cubic spline in the logarithms when there are very many"""
    r = np.atleast_1d(r).ravel()
    if len(r) < 600 or r.min() <= 0 or r.max() < 1.001 * r.min():
        return np.array([f(ri) for ri in r])
    from scipy.interpolate import CubicSpline
    g = np.geomspace(r.min() * 0.999, r.max() * 1.001, 300)
    v = np.array([f(ri) for ri in g])
    if not np.all(np.isfinite(v)) or not (np.all(v > 0) or np.all(v < 0)):
        return np.array([f(ri) for ri in r])
    return np.sign(v[0]) * np.exp(CubicSpline(np.log(g), np.log(np.abs(v)))(np.log(r)))


class Spherical(object):

    _rmax_factor = 1e7

    # subclasses: _rho(r, *pars) with pars[0] = scale radius; normalisation last
    def _m3d(self, r, rho, scale):
        lo = 1e-12 * min(r, scale)
        mid = [lo] + [x for x in (scale * 1e-8, scale * 1e-4, scale * 1e-2, scale * .1, scale, 10 * scale,
                                  100 * scale, 1e4 * scale) if lo < x < r] + [r]
        return sum(_quad_log(lambda q: 4 * np.pi * q ** 2 * rho(q), a, b)
                   for a, b in zip(mid[:-1], mid[1:]))

    def _sigma(self, R, rho, scale):
        """projected density: 2 int_0^inf rho(sqrt(R^2+s^2)) ds"""
        edges = np.unique([1e-9 * R, 1e-3 * R, 0.1 * R, R, 10 * R, 1e3 * R, 1e6 * R,
                           1e-2 * scale, scale, 1e2 * scale, 1e4 * scale, 1e6 * scale])
        return 2 * sum(_quad_log(lambda s: rho(np.sqrt(R * R + s * s)), a, b)
                       for a, b in zip(edges[:-1], edges[1:]))

    def _m2d(self, R, rho, scale):
        """projected mass inside R: the sphere plus the caps in front and behind"""
        edges = np.unique([1e-9 * R, 1e-3 * R, 0.1 * R, R, 10 * R, 1e3 * R, 1e6 * R,
                           1e-2 * scale, scale, 1e2 * scale, 1e4 * scale, 1e6 * scale])

        def f(s):
            r = np.sqrt(R * R + s * s)
            return 4 * np.pi * s * R * R / (r + s) * rho(r)
        return self._m3d(R, rho, scale) + sum(_quad_log(f, a, b) for a, b in zip(edges[:-1], edges[1:]))

    def _alpha(self, R, rho, scale):
        return self._m2d(R, rho, scale) / (np.pi * R)

    def _rad(self, x, y, cx, cy):
        dx, dy = np.asarray(x, dtype=float) - cx, np.asarray(y, dtype=float) - cy
        r = np.maximum(np.sqrt(dx ** 2 + dy ** 2), 1e-8)
        return dx, dy, r

    def _deriv(self, x, y, cx, cy, rho, scale):
        dx, dy, r = self._rad(x, y, cx, cy)
        a = _many(lambda ri: self._alpha(ri, rho, scale), r).reshape(np.shape(r))
        return a * dx / r, a * dy / r

    def _hess(self, x, y, cx, cy, rho, scale):
        dx, dy, r = self._rad(x, y, cx, cy)
        a = _many(lambda ri: self._alpha(ri, rho, scale), r).reshape(np.shape(r))
        k = _many(lambda ri: self._sigma(ri, rho, scale), r).reshape(np.shape(r))
        # alpha/r = mean kappa ; d alpha/dr = 2 kappa - alpha/r
        m = a / r
        d = 2 * k - m
        c, s = dx / r, dy / r
        fxx = d * c ** 2 + m * s ** 2
        fyy = d * s ** 2 + m * c ** 2
        fxy = (d - m) * c * s
        return fxx, fxy, fxy, fyy
