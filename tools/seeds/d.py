SY = '''
import sys, warnings
import numpy as np
import sympy
warnings.simplefilter("ignore")

def fail(*a):
    print(*a); sys.exit(1)
'''
NU = SY + '''
from astropy import units as u
'''
SEEDS = [
 dict(id="d01-late-step", prop="C17", file="integrators/fantasy.py",
      edits=[("        self.step_num += 1\n", "        self.step_num += 1\n        if self.step_num > 400:\n            self.delta = min(self.delta, 0.5)\n")],
      needs="more than 400 steps with a step size above 0.5", breaks="the step size changes in the middle of the integration",
      demo=SY + '''
from einsteinpy.integrators import GeodesicIntegrator
g = lambda q, *a: np.diag([-1.0, 1.0, 1.0, 1.0])
o = GeodesicIntegrator(g, (), np.array([0.0, 1, 1, 1]), np.array([-1.0, 0.5, 0, 0]), delta=2.0, order=2, omega=0.0, suppress_warnings=True)
for _ in range(403): o.step()
if abs((o.results[402][0][1] - o.results[401][0][1]) - (o.results[1][0][1] - o.results[0][0][1])) > 1e-9: fail("speed of a free particle changes")
'''),
 dict(id="d02-int-momentum", prop="C14", file="geodesic/utils.py",
      edits=[("    P = np.array([0.0, *p])", "    P = np.array([0, *p])")],
      needs="an initial momentum given as integers", breaks="the time component is truncated to an integer",
      demo=SY + '''
from einsteinpy.geodesic.utils import _P
g = lambda q, *a: np.diag([-1.0, 1.0, 1.0, 1.0])
P = _P(g, (), np.array([0.0, 1, 1, 1]), [1, 0, 0])
if abs(P @ g(0) @ P + 1) > 1e-9: fail(P)
'''),
 dict(id="d03-matrix-form", prop="C27", file="symbolic/tensor.py",
      edits=[("        tm = sympy.Array(transformation_matrix)\n", "        if isinstance(transformation_matrix, sympy.MatrixBase):\n            transformation_matrix = transformation_matrix.T.tolist()\n        tm = sympy.Array(transformation_matrix)\n")],
      needs="a transformation given as a sympy Matrix that is not symmetric", breaks="the transposed transformation is applied",
      demo=SY + '''
from einsteinpy.symbolic.tensor import BaseRelativityTensor
x, y = sympy.symbols("x y")
L = [[1, 2], [0, 1]]
t = BaseRelativityTensor([x, y], (x, y), config="u")
if t.lorentz_transform(sympy.Matrix(L)).tensor() != t.lorentz_transform(L).tensor(): fail("forms differ")
'''),
 dict(id="d04-orthogonal", prop="C27", file="symbolic/tensor.py",
      edits=[("            tm_inv = sympy.Array(sympy.Matrix(tm.tolist()).inv())", "            mat = sympy.Matrix(tm.tolist())\n            tm_inv = sympy.Array(mat.T if mat.det() == 1 else mat.inv())")],
      needs="a numeric boost of determinant one applied to a tensor with a lower index", breaks="the transpose stands in for the inverse of a boost",
      demo=SY + '''
from einsteinpy.symbolic.tensor import BaseRelativityTensor
x, y = sympy.symbols("x y")
R = sympy.Rational
L = [[R(5, 4), R(3, 4)], [R(3, 4), R(5, 4)]]
a = BaseRelativityTensor([2, 3], (x, y), config="u").lorentz_transform(L)
b = BaseRelativityTensor([5, 7], (x, y), config="l").lorentz_transform(L)
if sum(a[i] * b[i] for i in range(2)) != 31: fail("not invariant")
'''),
 dict(id="d05-constant-index", prop="C24", file="symbolic/tensor.py",
      edits=[("            if action == 0:\n                continue", "            if action == 0 or (i > 0 and not t.free_symbols):\n                continue")],
      needs="a tensor of numbers whose second or later index moves in a constant metric", breaks="the index is relabelled without being contracted",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor, RicciTensor
x, y = sympy.symbols("x y")
m = MetricTensor([[-1, 0], [0, 1]], (x, y))
t = RicciTensor([[1, 2], [3, 4]], (x, y), config="ll", parent_metric=m).change_config("lu")
if t.tensor().tolist() != [[-1, 2], [-3, 4]]: fail(t.tensor())
'''),
 dict(id="d06-axis-velocity", prop="C10", file="coordinates/utils.py",
      edits=[("    v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))\n    v_p = (v_y * x - v_x * y) / (x**2 + y**2)\n\n    return t, r, theta, phi, v_r, v_th, v_p\n\n\n@jit\ndef cartesian_to_bl_novel",
              "    v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))\n    v_p = (v_y * x - v_x * y) / (r**2 + alpha**2 - z**2)\n\n    return t, r, theta, phi, v_r, v_th, v_p\n\n\n@jit\ndef cartesian_to_bl_novel")],
      needs="a Cartesian to Boyer-Lindquist conversion off the equatorial plane with spin", breaks="the azimuthal velocity is off by the flattening of the spheroid",
      demo=NU + '''
from einsteinpy.coordinates.utils import cartesian_to_bl_fast
r = cartesian_to_bl_fast(0.0, 3.0, 2.0, 4.0, 1.5, 0.3, -0.4, 0.2, True)
if abs(r[6] - (-0.4 * 3 - 0.3 * 2) / 13) > 1e-9: fail(r)
'''),
 dict(id="d07-same-metric", prop="C12", file="coordinates/differential.py",
      edits=[("        self.v_t = (metric,)\n\n        return (\n            self._v_t.value,\n            self.v_x.si.value", "        if self._v_t is None or metric.coords is not self:\n            self.v_t = (metric,)\n\n        return (\n            self._v_t.value,\n            self.v_x.si.value"),
             ],
      needs="two metrics built on the same Cartesian coordinates object", breaks="the second metric is answered the time velocity of the first",
      demo=NU + '''
from einsteinpy.coordinates import CartesianDifferential
from einsteinpy.metric import BaseMetric
c = CartesianDifferential(0 * u.s, 1 * u.m, 2 * u.m, 3 * u.m, 1 * u.m / u.s, 0 * u.m / u.s, 0 * u.m / u.s)
mk = lambda k: BaseMetric(c, 1 * u.kg, metric_cov=lambda x: np.diag([k, -1.0, -1.0, -1.0]))
a, b = c.velocity(mk(1.0))[0], c.velocity(mk(4.0))[0]
if abs(a / b - 2) > 1e-6: fail(a, b)
'''),
 dict(id="d08-sem-uu", prop="C22", file="symbolic/stress_energy_momentum.py",
      edits=[("            * (t_einstein.tensor() - Cosmo_Const * metric.lower_config().tensor())", "            * (t_einstein.tensor() - Cosmo_Const * metric.tensor())")],
      needs="a metric given with upper indices", breaks="the cosmological term is added with its indices up",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor, StressEnergyMomentumTensor
x, y, z = sympy.symbols("x y z")
d = [2, x**2, 3]
lo = MetricTensor(sympy.diag(*d).tolist(), (x, y, z))
up = MetricTensor(sympy.diag(*[1 / sympy.sympify(e) for e in d]).tolist(), (x, y, z), config="uu")
a, b = (StressEnergyMomentumTensor.from_metric(m).tensor() for m in (lo, up))
if any(sympy.simplify(a[i, i] - b[i, i]) != 0 for i in range(3)): fail(a, b)
'''),
 dict(id="d09-epoch-minutes", prop="C31", file="utils/scalar_factor.py",
      edits=[("    T = t.to(u.s).value\n    if era == \"md\":\n        return (2 / 3)", "    T = t.value if t.unit == u.ms else t.to(u.s).value\n    if era == \"md\":\n        return (2 / 3)")],
      needs="the derivative at a time in milliseconds", breaks="the unit of the time is ignored",
      demo=NU + '''
from einsteinpy.utils import scalar_factor_derivative as f
if abs(f(2000 * u.ms) / f(2 * u.s) - 1) > 1e-9: fail("units")
'''),
 dict(id="d10-inward-start", prop="C38", file="hypersurface/schwarzschildembedding.py",
      edits=[("        z = 0\n        r = r_initial\n        while r > (9 * self.M.value / 4):", "        r = r_initial + r_step if alpha > 1e3 else r_initial\n        z = 0\n        while r > (9 * self.M.value / 4):")],
      needs="a step finer than a thousandth of the mass", breaks="the inward branch starts at a mirrored radius",
      demo=NU + '''
from einsteinpy.hypersurface import SchwarzschildEmbedding
o = SchwarzschildEmbedding(1e23 * u.kg)
x, y = o.get_values(2000)
i = [k for k, v in enumerate(y) if v == 0 and k][0]
if abs(x[i] - x[0]) > 1e-9: fail(x[i], x[0])
'''),
 dict(id="d11-shadow-order", prop="C39", file="rays/shadow.py",
      edits=[("        self.fb1 = b_new\n", "        self.fb1 = b_new\n        self.fov = b_new[-1] * self.fov.unit\n")],
      needs="reading the field of view after smoothing", breaks="smoothing rewrites the field of view",
      demo=NU + '''
from einsteinpy.rays import Shadow
s = Shadow(mass=1 * u.kg, n_rays=20, fov=30 * u.km)
f = s.fov
s.intensity = list(np.real(s.intensity))
s.fb1 = list(np.linspace(0.0, 20.0, len(s.fb1)))
s.smoothen(50)
if s.fov != f: fail(s.fov)
'''),
 dict(id="d12-repr-units", prop="C40", file="coordinates/core.py",
      edits=[("            r = ({self.r}), theta = ({self.theta}), phi = ({self.phi})\"\n\n    def __getitem__", "            r = ({self.r}), theta = ({self.theta}), phi = ({self.phi})\"\n\n    def __getitem__")],
      needs="-", breaks="-", demo=SY),
]
SEEDS = [s for s in SEEDS if s["id"] != "d12-repr-units"]
