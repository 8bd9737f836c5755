import numpy as np
G = 6.67384e-11
M_sun = 1.9891e30
M_earth = 5.972e24
c = 299792458
Mpc = 3.08567758e22
arcsec = np.pi / (180. * 3600.)
day_s = 86400.
