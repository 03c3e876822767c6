SY = '''
import sys, warnings
import numpy as np
import sympy
warnings.simplefilter("ignore")

def fail(*a):
    print(*a); sys.exit(1)
'''
SEEDS = [
 dict(id="c01-product-parent", prop="C26", file="symbolic/tensor.py",
      edits=[("parent_metric=tensor1.parent_metric,", "parent_metric=tensor1.parent_metric or tensor2.parent_metric,")],
      needs="a product whose left factor has no parent metric and whose right factor has one", breaks="the product inherits a metric its first factor never had",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor
from einsteinpy.symbolic.tensor import BaseRelativityTensor, tensor_product
x, y = sympy.symbols("x y")
m = MetricTensor([[1, 0], [0, x**2]], (x, y))
a = BaseRelativityTensor([x, y], (x, y), config="u")
b = BaseRelativityTensor([y, x], (x, y), config="l", parent_metric=m)
if tensor_product(a, b).parent_metric is not None: fail("parent")
'''),
 dict(id="c02-transform-shared", prop="C46", file="symbolic/helpers.py",
      edits=[("        derivative_array = np.reciprocal(tmp_array)\n", "        derivative_array = np.reciprocal(tmp_array)\n        if len(new_coords) > 2:\n            derivative_array = derivative_array.T\n")],
      needs="a change of three or more coordinates", breaks="rows and columns of the transformation are exchanged",
      demo=SY + '''
from einsteinpy.symbolic import TransformationMatrix
p, q, w, x, y, z = sympy.symbols("p q w x y z", positive=True)
T = TransformationMatrix.from_new2old([x, y, z], [p, q, w], [p * q, q * w**2, w * p**3])
if sympy.simplify(T[0, 2] * sympy.diff(w * p**3, p) - 1) != 0: fail(T)
'''),
 dict(id="c03-inverse-cache", prop="C46", file="symbolic/helpers.py",
      edits=[("            return self._inv\n\n        tmp_array = sympy_to_np_array(self)", "            return self._inv.transpose()\n\n        tmp_array = sympy_to_np_array(self)")],
      needs="asking for the inverse twice", breaks="the second call answers the transposed inverse",
      demo=SY + '''
from einsteinpy.symbolic import TransformationMatrix
a, b, x, y = sympy.symbols("a b x y")
T = TransformationMatrix([[a, b], [2, 3]], [x, y], [a, b])
if T.inv() != T.inv(): fail("inverse changes")
'''),
 dict(id="c04-bl-axis-velocity", prop="C10", file="coordinates/utils.py",
      edits=[("    v_p = (v_y * x - v_x * y) / (x**2 + y**2)\n\n    return t, r, theta, phi, v_r, v_th, v_p", "    v_p = (v_y * x - v_x * y) / (x**2 + y**2 + alpha**2 * (z == 0))\n\n    return t, r, theta, phi, v_r, v_th, v_p")],
      needs="a Cartesian event exactly in the equatorial plane converted to Boyer-Lindquist", breaks="the azimuthal velocity in the equatorial plane",
      demo=SY + '''
from einsteinpy.coordinates.utils import cartesian_to_bl
r = cartesian_to_bl(0.0, 10.0, 3.0, 0.0, 2.0, 0.1, 0.2, 0.3)
w = (0.2 * 10 - 0.1 * 3) / 109
if abs(r[6] - w) > 1e-12: fail(r, w)
'''),
 dict(id="c05-z-order", prop="C17", file="integrators/fantasy.py",
      edits=[("        step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)", "        step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], abs(dl) * Z1)")],
      needs="order 8 and a negative step", breaks="backward integration of order 8",
      demo=SY + '''
from einsteinpy.integrators import GeodesicIntegrator
g = lambda x, *p: np.diag([-1.0, 1.0, 1.0, 1.0])
def run(d):
    o = GeodesicIntegrator(g, (), np.array([0., 1., 2., 3.]), np.array([-1.2, .5, .3, .1]), delta=d, order=8, omega=.01, suppress_warnings=True)
    o.step(); return np.array(o.results[0])
a, b = run(.1), run(-.1)
x0 = np.array([0., 1., 2., 3.])
if not np.allclose((a[0] - x0), -(b[0] - x0), atol=1e-9): fail(a[0], b[0])
'''),
 dict(id="c06-kn-spin-potential", prop="C05", file="metric/kerrnewman.py",
      edits=[("        A_cov = self.em_potential_covariant(x_vec)\n", "        A_cov = self.em_potential_covariant(x_vec)\n        if not self.Q.value > 0:\n            A_cov = -A_cov\n")],
      needs="a negatively charged hole and the potential with an upper index", breaks="sign of the contravariant potential for Q < 0",
      demo=SY + '''
import astropy.units as u
from einsteinpy.metric import KerrNewman
from einsteinpy.coordinates import BoyerLindquistDifferential as B
c = B(t=0*u.s, r=1e5*u.m, theta=1*u.rad, phi=0*u.rad, v_r=0*u.m/u.s, v_th=0*u.rad/u.s, v_p=0*u.rad/u.s)
m = KerrNewman(coords=c, M=1e30*u.kg, a=0.5*u.one, Q=-1e18*u.C)
x = np.array([0., 1e5, 1., 0.])
if not np.allclose(m.em_potential_contravariant(x), m.metric_contravariant(x) @ m.em_potential_covariant(x), rtol=1e-10, atol=0): fail("A")
'''),
 dict(id="c07-assumptions", prop="C35", file="symbolic/constants.py",
      edits=[("super(SymbolicConstant, cls).__new__(cls, name, **assumptions)", "super(SymbolicConstant, cls).__new__(cls, name)")],
      needs="a constant declared with assumptions", breaks="assumptions of symbolic constants are lost",
      demo=SY + '''
from einsteinpy.symbolic.constants import SymbolicConstant
k = SymbolicConstant("k", "Boltzmann", positive=True)
if not k.is_positive: fail("assumption lost")
'''),
 dict(id="c08-empty-name", prop="C25", file="symbolic/helpers.py",
      edits=[("if (curr_name is not None) else None", "if curr_name else None")],
      needs="a tensor whose name is the empty string", breaks="its name is dropped on a change of configuration",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor
x, y = sympy.symbols("x y")
m = MetricTensor([[1, 0], [0, x**2]], (x, y), name="")
if m.change_config("uu").name != "__uu": fail(m.change_config("uu").name)
'''),
 dict(id="c09-round-state", prop="C17", file="integrators/fantasy.py",
      edits=[("        self.res_list = arr\n", "        self.res_list = np.array(arr, dtype=float).round(9)\n")],
      needs="momenta or steps small enough for the tenth decimal", breaks="every state is rounded before the next step",
      demo=SY + '''
from einsteinpy.integrators import GeodesicIntegrator
g = lambda x, *p: np.diag([-1.0, 1.0, 1.0, 1.0])
o = GeodesicIntegrator(g, (), np.array([0., 1., 2., 3.]), np.array([-1., 1e-10, 0., 0.]), delta=.1, omega=1e-3, suppress_warnings=True)
for _ in range(3): o.step()
if abs(o.results[2][0][1] - 1 - 3e-11) > 1e-13: fail(o.results[2][0][1] - 1)
'''),
 dict(id="c10-rk-last-step", prop="C32", file="integrators/runge_kutta.py",
      edits=[("        self.t = self.t + self.step_size\n", "        self.t = min(self.t + self.step_size, self.t_bound) if self.direction == 1 else self.t + self.step_size\n")],
      needs="a bound that is no multiple of the step", breaks="time and state disagree after the last step",
      demo=SY + '''
from einsteinpy.integrators import RK4naive
o = RK4naive(lambda t, y: y * 0 + 1.0, 0.0, np.array([0.0]), 0.25, 0.1)
for _ in range(3): o.step()
if abs(o.t - o.y[0]) > 1e-12: fail(o.t, o.y)
'''),
 dict(id="c11-surface-seam", prop="C38", file="hypersurface/schwarzschildembedding.py",
      edits=[("np.linspace(0, 2 * np.pi, 60)", "np.linspace(0, 2 * np.pi, 60, endpoint=False)")],
      needs="looking at the last meridian", breaks="the surface of revolution stays open",
      demo=SY + '''
import astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding
X, Y, Z = SchwarzschildEmbedding(5.927e23 * u.kg).get_values_surface(100)
if not np.allclose(X[0], X[-1]): fail("open surface")
'''),
 dict(id="c12-exception-falsy", prop="C40", file="utils/exceptions.py",
      edits=[("for i in args)", "for i in args if i or i == 0)")],
      needs="an empty or None argument", breaks="arguments vanish from the message",
      demo=SY + '''
from einsteinpy.utils import BaseError
e = BaseError("value", None, "rejected")
if e.message != "value None rejected": fail(e.message)
'''),
 dict(id="c13-percent-q", prop="C07", file="metric/kerrnewman.py",
      edits=[("self.q = q.to(u.C / u.kg)", "self.q = q")],
      needs="a test charge given in another unit, such as C/g", breaks="Lorentz force scaled by the unit",
      demo=SY + '''
import astropy.units as u
from einsteinpy.metric import KerrNewman
from einsteinpy.coordinates import BoyerLindquistDifferential as B
c = B(t=0*u.s, r=1e5*u.m, theta=1*u.rad, phi=0*u.rad, v_r=0*u.m/u.s, v_th=0*u.rad/u.s, v_p=0*u.rad/u.s)
f = [KerrNewman(coords=c, M=1e30*u.kg, a=0.5*u.one, Q=1e18*u.C, q=q).f_vec(0., np.array([0., 1e5, 1., 0., 1., 10., 1e-3, 1e-3])) for q in (1*u.C/u.kg, 1e-3*u.C/u.g)]
if not np.allclose(f[0], f[1], rtol=1e-9): fail(f)
'''),
 dict(id="c14-dual-nonsym", prop="C16", file="utils/dual.py",
      edits=[("            if i <= j:\n                J[i, j] = _diff_g(g, g_prms, coords, (i, j), wrt)", "            if i <= j and (i == j or wrt in (1, 2) or i == 0):\n                J[i, j] = _diff_g(g, g_prms, coords, (i, j), wrt)")],
      needs="a metric with a spatial off-diagonal entry that depends on time or azimuth", breaks="that derivative is taken as zero",
      demo=SY + '''
from einsteinpy.utils.dual import _jacobian_g
def g(x, *p):
    m = np.zeros((4, 4), dtype=object); m[0, 0] = -1.0
    for i in (1, 2, 3): m[i, i] = 1.0
    m[1, 3] = m[3, 1] = x[0] * 0.1
    return m
J = _jacobian_g(g, (), np.array([1., 2., 3., 4.]), 0)
if abs(J[1, 3] - .1) > 1e-12 or abs(J[3, 1] - .1) > 1e-12: fail(J)
'''),
 dict(id="c15-kn-extreme", prop="C13", file="geodesic/utils.py",
      edits=[("    delta = (r**2) - (2 * r) + (a**2) + Q**2", "    delta = (r**2) - (2 * r) + (a**2) + (Q**2 if Q > 0 else 0)")],
      needs="a negative charge", breaks="the metric ignores a negative charge",
      demo=SY + '''
from einsteinpy.geodesic.utils import _kerrnewman
x = np.array([0., 10., 1., 0.])
if not np.allclose(np.array(_kerrnewman(x, .3, .4), float), np.array(_kerrnewman(x, .3, -.4), float), rtol=1e-12): fail("charge sign")
'''),
]
