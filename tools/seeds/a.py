PRE = '''
import sys
import numpy as np
import astropy.units as u
from einsteinpy.coordinates import *
from einsteinpy.coordinates.utils import *
from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman
from einsteinpy import constant
c = constant.c.value; G = constant.G.value

def bl(r=3e6, th=1.1, ph=0.7, vr=1e3, vth=0.2, vp=0.3):
    return BoyerLindquistDifferential(t=0*u.s, r=r*u.m, theta=th*u.rad, phi=ph*u.rad, v_r=vr*u.m/u.s, v_th=vth*u.rad/u.s, v_p=vp*u.rad/u.s)

def close(x, y, rt=1e-6):
    if not np.allclose(x, y, rtol=rt, atol=0):
        print("differs:", x, y); sys.exit(1)
'''
SEEDS = [
 dict(id="a01-kerr-gphph-alpha", prop="C01", file="metric/kerr.py",
      edits=[("((r**2) + (alpha**2) + ((r_s * r * (alpha * np.sin(th)) ** 2) / sg))", "((r**2) + (alpha**2) + ((r_s * r * alpha**2 * np.sin(th)) / sg))")],
      needs="a point off the equatorial plane with a non-zero spin", breaks="g_phiphi of Kerr is wrong away from theta = pi/2",
      demo=PRE + '''
M = 4e30; a = 0.9
m = Kerr(coords=bl(), M=M*u.kg, a=a*u.one)
th = 0.8; r = 9e3
rs = 2*G*M/c**2; al = a*G*M/c**2
S = r*r + (al*np.cos(th))**2
close(m.metric_covariant(np.array([0, r, th, 0.]))[3, 3], -(r*r + al**2 + rs*r*(al*np.sin(th))**2/S)*np.sin(th)**2)
'''),
 dict(id="a02-kerr-dgdth", prop="C03", file="metric/kerr.py",
      edits=[("dgdx[2, 1, 1] = -(dsdth / dl)", "dgdx[2, 1, 1] = -(dsdth / sg)")],
      needs="the theta derivative of g_rr with a non-zero spin", breaks="Christoffel symbols containing d_theta g_rr of Kerr",
      demo=PRE + '''
M = 4e30; a = 0.9
m = Kerr(coords=bl(), M=M*u.kg, a=a*u.one)
x = np.array([0, 2e4, 0.8, 0.])
h = 1e-6
gp = m.metric_covariant(x + [0, 0, h, 0]); gm = m.metric_covariant(x - [0, 0, h, 0])
d = (gp - gm)[1, 1] / (2*h)
close(m.christoffels(x)[1, 1, 2], 0.5 * d / m.metric_covariant(x)[1, 1], 1e-4)
'''),
 dict(id="a03-bl-vth-polar", prop="C10", file="coordinates/utils.py",
      edits=[("v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))", "v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * abs(z)) / (r**2))")],
      needs="a point below the equatorial plane with a radial velocity", breaks="v_th of the Cartesian to Boyer-Lindquist conversion for z < 0",
      demo=PRE + '''
q = (0., 8., 2.2, 0.4, 3., 0.1, -0.2)
p = cartesian_to_bl(*bl_to_cartesian(q[0], q[1], q[2], q[3], 1.5, *q[4:])[:4], 1.5, *bl_to_cartesian(q[0], q[1], q[2], q[3], 1.5, *q[4:])[4:])
close(p, q)
'''),
]
SEEDS += [
 dict(id="a04-kn-em-contra-phi", prop="C05", file="metric/kerrnewman.py",
      edits=[("A[3] = -r * alpha * r_Q * np.sin(th) ** 2 / rho2", "A[3] = -r * alpha * r_Q * (1 - np.cos(th)) * np.sin(th) / rho2")],
      needs="a spinning charged hole and a point off the equatorial plane", breaks="A_phi of the Kerr-Newman potential",
      demo=PRE + '''
m = KerrNewman(coords=bl(), M=4e30*u.kg, a=0.7*u.one, Q=1e18*u.C)
r, th = 9e3, 0.8
A = m.em_potential_covariant(np.array([0, r, th, 0.]))
close(A[3] / A[0], -m.alpha(4e30, 0.7) * np.sin(th)**2)
'''),
 dict(id="a05-perturb-twice", prop="C02", file="metric/base_metric.py",
      edits=[("g_cov = self.metric_covariant(x_vec)\n        g_contra", "g_cov = self.metric_covariant(x_vec)\n        if self.perturbation:\n            g_cov = g_cov + self.perturbation(x_vec)\n        g_contra")],
      needs="a metric object with a perturbation", breaks="contravariant metric is no longer the inverse of the covariant one",
      demo=PRE + '''
from einsteinpy.metric import BaseMetric
eta = lambda x: np.diag([1., -1., -1., -1.])
h = lambda x: 0.1 * np.outer([1, 1, 0, 0.], [1, 1, 0, 0.]) + 0.05 * np.eye(4)
m = BaseMetric(coords=bl(), M=1*u.kg, metric_cov=eta, perturbation=h)
x = np.array([0., 1, 1, 1])
if not np.allclose(m.metric_contravariant(x) @ m.metric_covariant(x), np.eye(4), atol=1e-9):
    print("not the inverse"); sys.exit(1)
'''),
 dict(id="a06-kn-dgdr03", prop="C03", file="metric/kerrnewman.py",
      edits=[(") * ((dddr - 2 * r) * rho2 - drh2dr * (dl - r**2 - alpha**2))", ") * (-self.sch_rad * rho2 + drh2dr * self.sch_rad * r)")],
      needs="a non-zero charge together with spin", breaks="d_r g_tphi of Kerr-Newman ignores the charge",
      demo=PRE + '''
Q = 0.3 * 4e30 * np.sqrt(G * 4 * np.pi * constant.eps_0.value) if hasattr(constant, "eps_0") else 1e20
m = KerrNewman(coords=bl(), M=4e30*u.kg, a=0.7*u.one, Q=Q*u.C)
x = np.array([0, 1.2e4, 0.8, 0.]); h = 1e-1
g = m.metric_covariant(x); gi = np.linalg.inv(g)
dr = (m.metric_covariant(x + [0, h, 0, 0]) - m.metric_covariant(x - [0, h, 0, 0])) / (2*h)
want = 0.5 * (gi[0, 0] * dr[0, 0] + gi[0, 3] * dr[0, 3])
close(m.christoffels(x)[0, 0, 1], want, 1e-6)
'''),
 dict(id="a07-kerr-fvec-cross", prop="C04", file="metric/kerr.py",
      edits=[("+ 2 * chl[2, 1, 2] * vec[5] * vec[6]", "+ 2 * chl[2, 1, 2] * vec[5] * abs(vec[6])")],
      needs="motion towards decreasing theta with a radial velocity", breaks="theta acceleration in the Kerr geodesic equation",
      demo=PRE + '''
m = Kerr(coords=bl(), M=4e30*u.kg, a=0.7*u.one)
v = np.array([0, 2e4, 1.1, 0.3, 1.4, 2e3, -0.3, 0.2])
G_ = m.christoffels(v[:4])
close(m.f_vec(0., v)[4:], -np.einsum("ijk,j,k->i", G_, v[4:], v[4:]), 1e-9)
'''),
 dict(id="a08-kn-ergo-a", prop="C06", file="metric/base_metric.py",
      edits=[("+ np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2))", "+ np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * np.cos(theta) ** 2 * r_Q2))")],
      needs="a charged hole away from the axis", breaks="outer ergosphere radius of Kerr-Newman",
      demo=PRE + '''
M = 4e30; Q = 1e20
m = KerrNewman(coords=bl(), M=M*u.kg, a=0.5*u.one, Q=Q*u.C)
r = m.singularities()["outer_ergosphere"](1.0)
g = m.metric_covariant(np.array([0, r, 1.0, 0.]))
if abs(g[0, 0]) > 1e-6 * c**2:
    print("g_tt at the ergosphere", g[0, 0]); sys.exit(1)
'''),
 dict(id="a09-position-si", prop="C07", file="coordinates/core.py",
      edits=[("return (_c * self.t.si.value, self.x.si.value, self.y.si.value, self.z.si.value)", "return (_c * self.t.si.value, self.x.value, self.y.value, self.z.value)")],
      needs="a position given in kilometres", breaks="position() of Cartesian coordinates not in metres",
      demo=PRE + '''
p = Cartesian(1*u.s, 1*u.km, 2*u.km, 3*u.km).position()
close(p[1:], (1e3, 2e3, 3e3))
'''),
 dict(id="a10-vt-cached", prop="C08", file="coordinates/differential.py",
      edits=[], needs="", breaks="", demo=PRE),
 dict(id="a11-round-trip-velocity", prop="C11", file="coordinates/conversion.py",
      edits=[("(v_x is None) or (v_y is None) or (v_z is None)", "(v_x is None) and (v_y is None) and (v_z is None)")],
      needs="a conversion object with only some velocities given", breaks="values() reports a 7-tuple with None entries",
      demo=PRE + '''
from einsteinpy.coordinates.conversion import CartesianConversion
v = CartesianConversion(1., 2., 3., 4., 5., 6.).values()
if len(v) != 4 or None in v:
    print(v); sys.exit(1)
'''),
 dict(id="a12-cart-bl-theta-neg", prop="C09", file="coordinates/utils.py",
      edits=[("    theta = np.arccos(z / r)\n    phi = np.arctan2(y, x)\n\n    return t, r, theta, phi\n\n\ndef spherical", "    theta = np.arctan(np.sqrt(x**2 + y**2) * r / (z * np.sqrt(r**2 + alpha**2)))\n    phi = np.arctan2(y, x)\n\n    return t, r, theta, phi\n\n\ndef spherical")],
      needs="a position conversion below the equatorial plane", breaks="theta of the Boyer-Lindquist position for z < 0",
      demo=PRE + '''
q = bl_to_cartesian_fast(0., 9., 2.5, 0.4, 2.)
close(cartesian_to_bl_fast(*q, 2.)[1:], (9., 2.5, 0.4))
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
