SY = '''
import sys, warnings
import numpy as np
import sympy
warnings.simplefilter("ignore")

def fail(*a):
    print(*a); sys.exit(1)

def zero(e, msg):
    if sympy.simplify(e) != 0:
        fail(msg, e)
'''
SEEDS = [
 dict(id="b01-momentum-cross", prop="C14", file="geodesic/utils.py",
      edits=[("2 * guu[1, 2] * P[1] * P[2]", "2 * guu[1, 2] * P[1] * P[1]")],
      needs="a user metric with a g^{12} entry and a momentum with p_1 != p_2", breaks="the initial momentum is off the mass shell",
      demo=SY + '''
from einsteinpy.geodesic import Timelike
def met(x, *p):
    g = np.diag([-1., 1., 2., 3.]).astype(object)
    g[1, 2] = g[2, 1] = 0.3
    return g
t = Timelike(metric=met, metric_params=(), position=[1., 1., 1.], momentum=[0.2, 0.7, 0.1], steps=1, delta=0.1, suppress_warnings=True)
P = np.array(t.momentum, dtype=float)
n = P @ met(None).astype(float) @ P
if abs(n + 1) > 1e-9: fail("norm", n)
'''),
 dict(id="b02-warn-second-copy", prop="C18", file="integrators/fantasy.py",
      edits=[("q1 = arr[0]", "q1 = arr[2]")],
      needs="a step that lets the two phase space copies drift apart", breaks="the warning judges the second copy's position, not the one reported",
      demo=SY + '''
from einsteinpy.integrators import GeodesicIntegrator
def met(x, *p):
    return np.diag([-1., x[1], 1., 1.])
def run(state):
    o = GeodesicIntegrator(met, (), np.array([0., 1., 0., 0.]), np.array([-1., 0., 0., 0.]), rtol=1e-6, atol=1e-6, steps=1)
    o.integrator = lambda *a: np.array(state)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o.step()
    return len(w)
p = [-np.sqrt(2.), 1., 0., 0.]
if run([[0, 1., 0, 0], p, [0, 3., 0, 0], p]) != 0: fail("a state on the shell is reported")
if run([[0, 3., 0, 0], p, [0, 1., 0, 0], p]) == 0: fail("a state off the shell is not reported")
'''),
 dict(id="b03-user-name", prop="C19", file="geodesic/geodesic.py",
      edits=[("if metric == \"Schwarzschild\":", "if self.metric_name == \"Schwarzschild\":")],
      needs="a user-supplied metric function whose name is Schwarzschild, with parameters", breaks="the user's metric is integrated with parameter 0",
      demo=SY + '''
from einsteinpy.geodesic import Timelike
def Schwarzschild(x, *p):
    return np.diag([-1., p[0], p[0], p[0]])
t = Timelike(metric=Schwarzschild, metric_params=(2.,), position=[1., 1., 1.], momentum=[0.2, 0.1, 0.1], steps=3, delta=0.1, suppress_warnings=True, return_cartesian=False)
x = np.array(t.trajectory[1], dtype=float)
if abs((x[1, 1] - x[0, 1]) - 0.1 * 2 * 0.2) > 1e-6: fail("x1 advances by", x[1, 1] - x[0, 1])
'''),
 dict(id="b04-rk4-direction", prop="C32", file="integrators/runge_kutta.py",
      edits=[("1 * (self.t_bound >= t0)", "1 * (self.t_bound > t0)")],
      needs="a solver started exactly at its bound", breaks="it steps away from the bound instead of stopping",
      demo=SY + '''
from einsteinpy.integrators import RK4naive
s = RK4naive(lambda t, y: 1.0, 2.0, 0.0, 2.0, 0.5)
s.step()
if s.t != 2.0 or s.y != 0.0: fail("stepped beyond the bound:", s.t, s.y)
'''),
 dict(id="b05-rsub-zero", prop="C15", file="utils/dual.py",
      edits=[("        return DualNumber(other, 0) - self", "        return -(self - other) if self.val else DualNumber(other, self.deriv)")],
      needs="a number minus a dual number whose value is exactly 0", breaks="the derivative has the wrong sign there",
      demo=SY + '''
from einsteinpy.utils.dual import DualNumber
d = 3 - DualNumber(0., 2.)
if d.val != 3 or d.deriv != -2: fail(d)
'''),
 dict(id="b06-perturbed-velocity", prop="C12", file="coordinates/differential.py",
      edits=[('''            g_cov_mat = g.metric_covariant(self.position())

            v_t = v0(
                g_cov_mat,
                self.v_x.si.value,''', '''            g_cov_mat = g.metric_cov(self.position())

            v_t = v0(
                g_cov_mat,
                self.v_x.si.value,''')] if False else [],
      needs="a user metric with a perturbation", breaks="v_t normalises with the unperturbed metric", demo=""),
 dict(id="b07-extremal", prop="C06", file="metric/base_metric.py",
      edits=[("if a < 0 or a > 1:", "if a < 0 or a >= 1:")],
      needs="an extremal hole, a = 1 exactly", breaks="the extremal Kerr hole is rejected",
      demo=SY + '''
from einsteinpy.metric import BaseMetric
from einsteinpy import constant
try:
    v = BaseMetric.alpha(1e30, 1)
except ValueError as e:
    fail("rejected", e)
w = constant.G.value * 1e30 / constant.c.value**2
if abs(v - w) > 1e-9 * w: fail(v, w)
'''),
 dict(id="b08-product-functions", prop="C26", file="symbolic/tensor.py",
      edits=[("con = tensor1.config[:i] + tensor1.config[i + 1 :]", "con = tensor1.config.replace(tensor1.config[i], \"\", 1)")],
      needs="contraction over an index that is not the first of its kind, with indices of both kinds before it", breaks="the product has the wrong index configuration",
      demo=SY + '''
from einsteinpy.symbolic import BaseRelativityTensor
from einsteinpy.symbolic.tensor import tensor_product
x, y = sympy.symbols("x y")
a = BaseRelativityTensor([[[1, 2], [3, 4]], [[5, 6], [7, 8]]], (x, y), config="lul")
b = BaseRelativityTensor([x, y], (x, y), config="u")
p = tensor_product(a, b, 2, 0)
if p.config != "lu": fail(p.config)
'''),
 dict(id="b09-ricci-route", prop="C21", file="symbolic/ricci.py",
      edits=[("if not riemann.config == \"ulll\":", "if riemann.config == \"llll\":")],
      needs="a Riemann tensor with another index configuration, e.g. uull", breaks="the contraction of the wrong slots is returned as the Ricci tensor",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor, RiemannCurvatureTensor, RicciTensor
t, h = sympy.symbols("t h")
g = MetricTensor([[1, 0], [0, sympy.sin(t)**2]], (t, h))
r = RiemannCurvatureTensor.from_metric(g)
a = RicciTensor.from_riemann(r.change_config("uuuu"))
b = RicciTensor.from_riemann(r)
for i in range(2):
    for j in range(2):
        zero(a[i, j] - b[i, j], "Ricci depends on the route")
'''),
 dict(id="b10-weyl-upper", prop="C23", file="symbolic/weyl.py",
      edits=[("g = metric_cov\n", "g = metric\n")],
      needs="a four dimensional metric given with upper indices", breaks="the Weyl tensor mixes the inverse metric in",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor, WeylTensor
t, x, y, z = sympy.symbols("t x y z", positive=True)
g = MetricTensor(sympy.diag(-1, t**2, 1, 1).tolist(), (t, x, y, z))
h = MetricTensor(sympy.diag(-1, 1, x**2, 4 * t).tolist(), (t, x, y, z))
a = WeylTensor.from_metric(h); b = WeylTensor.from_metric(h.change_config("uu"))
for i in range(256):
    k = (i // 64, i // 16 % 4, i // 4 % 4, i % 4)
    zero(a[k] - b[k], "Weyl depends on the configuration of the metric")
'''),
 dict(id="b11-lower-uu", prop="C24", file="symbolic/tensor.py",
      edits=[("-1: metric.lower_config().tensor(),", "-1: metric.tensor(),")],
      needs="indices lowered with a metric given with upper indices", breaks="lowering contracts with the inverse metric",
      demo=SY + '''
from einsteinpy.symbolic import MetricTensor, GenericVector
x, y = sympy.symbols("x y")
g = MetricTensor([[x, 0], [0, y]], (x, y))
v = GenericVector([1, 1], (x, y), config="u", parent_metric=g.change_config("uu"))
w = v.change_config("l")
zero(w[0] - x, "lowered"); zero(w[1] - y, "lowered")
'''),
 dict(id="b12-not-shown", prop="C39", file="rays/shadow.py",
      edits=[("np.max(self.fb1)", "np.max(self.b)")],
      needs="a last ray without a real turning point", breaks="the smoothened profile reaches beyond the computed one",
      demo=SY + '''
import astropy.units as u
from einsteinpy.rays import shadow as m
orig = m.newton
n = [0]
def stub(f, x0, args=(), **k):
    n[0] += 1
    r = complex(orig(f, x0, args=args, **k))
    return r + 1j if n[0] == 10 else orig(f, x0, args=args, **k)
m.newton = stub
s = m.Shadow(1 * u.kg, 10, 30 * u.km)
hi = max(s.fb1)
try:
    s.smoothen(50)
except ValueError as e:
    fail("interpolates outside the computed range:", e)
if abs(max(s.fb1) - hi) > 1e-12: fail(max(s.fb1), hi)
'''),
 dict(id="b13-anim-margin", prop="C36", file="plotting/geodesic/static.py",
      edits=[("self.ax.set_zlim3d([z_min - margin_z, z_max + margin_z])", "self.ax.set_zlim3d([z_min - margin_z, z_max + margin_y])")],
      needs="an animated geodesic with different extents along y and z", breaks="the view cuts the curve off",
      demo=SY + '''
import matplotlib; matplotlib.use("Agg")
from einsteinpy.plotting.geodesic.static import StaticGeodesicPlotter
class G: pass
g = G(); g.metric_params = (0.5,); g.kind = "Time-like"; g.coords = "Cartesian"
tr = np.zeros((5, 8)); tr[:, 1] = np.arange(5); tr[:, 2] = np.arange(5) * 2; tr[:, 3] = np.arange(5) * 10
g.trajectory = (np.arange(5), tr)
p = StaticGeodesicPlotter(); p.animate(g)
lo, hi = p.ax.get_zlim3d()
if abs(lo + 8) > .6 or abs(hi - 48) > .6: fail(lo, hi)
'''),
 dict(id="b14-body-massless-x", prop="C34", file="bodies.py",
      edits=[("if diff:", "if diff and self.mass:")],
      needs="a test particle: a body of zero mass with coordinates", breaks="the body has no position and velocity",
      demo=SY + '''
import astropy.units as u
from einsteinpy.bodies import Body
from einsteinpy.coordinates import CartesianDifferential
b = Body(name="p", coords=CartesianDifferential(*[0 * u.s, 1 * u.m, 2 * u.m, 3 * u.m, 1 * u.m / u.s, 1 * u.m / u.s, 1 * u.m / u.s]))
if [v.value for v in getattr(b, "pos_vec", [])] != [1, 2, 3]: fail("no position")
'''),
 dict(id="b15-unused-params", prop="C28", file="symbolic/tensor.py",
      edits=[("if not variables:", "if variables == list():")],
      needs="variables given as an empty tuple or set", breaks="the free parameters of the tensor are not found",
      demo=SY + '''
from einsteinpy.symbolic import BaseRelativityTensor
x, a = sympy.symbols("x a")
b = BaseRelativityTensor([a * x], (x,), config="u", variables=())
if b.variables != [a]: fail(b.variables)
'''),
 dict(id="b16-percent-spin", prop="C07", file="metric/base_metric.py",
      edits=[("self.a = a.to(u.one)", "self.a = a")],
      needs="a spin given in percent", breaks="Kerr metric with a = 50 percent is evaluated with a = 50",
      demo=SY + '''
import astropy.units as u
from einsteinpy.metric import Kerr
from einsteinpy.coordinates import BoyerLindquistDifferential as B
c = lambda: B(t=0*u.s, r=1e5*u.m, theta=1*u.rad, phi=0*u.rad, v_r=0*u.m/u.s, v_th=0*u.rad/u.s, v_p=0*u.rad/u.s)
x = np.array([0., 1e5, 1., 0.])
try:
    g = Kerr(coords=c(), M=1e30*u.kg, a=50*u.percent).metric_covariant(x)
except ValueError as e:
    fail(e)
h = Kerr(coords=c(), M=1e30*u.kg, a=0.5*u.one).metric_covariant(x)
if not np.allclose(g, h, rtol=1e-12): fail(g, h)
'''),
 dict(id="b17-julia-iter", prop="C41", file="plotting/fractal.py",
      edits=[("A[i, j] = (it / iter_max) ** 0.2", "A[i, j] = (it / 64) ** 0.2")],
      needs="an iteration limit other than 64", breaks="the escape times are scaled wrongly",
      demo=SY + '''
from einsteinpy.plotting.fractal import _fractal_img
A = _fractal_img(dims=(3, 3), angle=np.pi / 2, iter_max=10, x_range=(-.01, .01), y_range=(-.01, .01))
if A.max() > 1 + 1e-12 or abs(_fractal_img(dims=(2, 2), angle=0.0, zabs_max=1e9, iter_max=3, x_range=(-.1, .1), y_range=(-.1, .1)).max() - 1) > 1e-9: fail(A)
'''),
]
SEEDS = [s for s in SEEDS if s["edits"] and s["demo"]]
