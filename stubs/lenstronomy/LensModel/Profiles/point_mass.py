import numpy as np
class PointMass(object):
    def derivatives(self, x, y, theta_E, center_x=0, center_y=0):
        x, y = x - center_x, y - center_y
        r2 = np.maximum(x * x + y * y, 1e-20)
        return theta_E ** 2 * x / r2, theta_E ** 2 * y / r2
    def hessian(self, x, y, theta_E, center_x=0, center_y=0):
        x, y = x - center_x, y - center_y
        r2 = np.maximum(x * x + y * y, 1e-20)
        t = theta_E ** 2
        return t * (y * y - x * x) / r2 ** 2, -2 * t * x * y / r2 ** 2, -2 * t * x * y / r2 ** 2, t * (x * x - y * y) / r2 ** 2
