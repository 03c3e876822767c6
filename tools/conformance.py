"""Development aid (not a check): compares the engine's array models with the
real numpy on concrete inputs.  Run: python3-vt tools/conformance.py"""
import itertools, os, sys, tempfile, shutil
import numpy as np
EXPR = '''
np.tile(A, 2); np.tile(A, (2, 1, 3)); np.tile(v, (2, 2)); np.repeat(v, 2); np.repeat(A, [1, 2], axis=0); np.repeat(A, 2, axis=1); np.repeat(A, 2)
np.flip(A); np.flip(A, 1); np.flip(C, (0, 2)); np.flipud(A); np.fliplr(A); np.roll(v, 1); np.roll(A, -1); np.roll(A, 1, axis=1); np.roll(C, (1, 1), axis=(0, 2))
np.tril(B); np.triu(B, 1); np.tril(B, -1); B[np.triu_indices(3)]; B[np.tril_indices(3, -1)]; B[np.triu_indices(3, k=1)]; B[np.diag_indices(3)]; np.triu(C)
np.indices((2, 3)); np.split(v, 2)[1]; np.split(B, 3)[2]; np.split(v, [1, 3])[1]; np.array_split(v, 3)[0]; np.hsplit(A, 3)[1]; np.vsplit(A, 2)[1]; np.split(A, 3, axis=1)[2]
np.take(v, [2, 0]); np.take(A, [2, 0], axis=1); np.take(A, 4); np.delete(v, 1); np.delete(A, [0, 2], axis=1); np.delete(A, 1, 0); np.insert(v, 1, 7); np.insert(v, -1, 7)
np.kron(A, B); np.broadcast_to(v, (2, 4)); np.broadcast_to(A[:, :1], (2, 3)); np.select([v > 2, v > 1], [v, 2 * v], 9); np.select([v > 2], [v])
np.ix_([0, 2], [1])[0]; np.polyval([1, 2, 3], 2); np.polyval(v, A); np.linalg.multi_dot([A, B, B]); np.block([[A, A], [B[:2], A]]); np.block([v, v]); np.fromiter((i * i for i in [1, 2, 3]), float)
np.cumsum(v); np.cumsum(A); np.cumsum(A, axis=1); np.cumsum(C, 0); np.cumprod(v); np.cumprod(B, axis=0); np.diff(v); np.where(v > 2)[0]; np.where(A > 2)[1]; np.nonzero(B - 1)[0]; np.argwhere(A > 2); np.flatnonzero(A > 2)
np.linspace(0, 1, 5); np.linspace(1, 3, 4, endpoint=False); np.logspace(0, 2, 3); np.geomspace(1, 8, 4); np.logspace(0, 2, 3, base=2); np.any(A > 2, axis=0); np.all(A > 0, axis=1); np.sum(C, axis=(0, 2)); np.prod(A, axis=0); np.max(A, axis=1); np.min(A, 0)
np.einsum("ij,jk->ik", A, B); np.einsum("ii", B); np.einsum("ii->i", B); np.einsum("ijk->kji", C); np.einsum("ij,j", B, w); np.einsum("i,j->ij", v, v); np.einsum(A, [0, 1], B, [1, 2], [0, 2])
np.tensordot(C, B, axes=([2], [0])); np.tensordot(A, B, 1); np.tensordot(C, A, axes=([0, 2], [0, 1])); np.outer(v, w); np.inner(A, B); np.dot(A, w); np.dot(C, B); C @ B; np.matmul(w, B); np.cross(w, w[::-1]); np.vdot(v, v); np.trace(B); np.trace(B, offset=1)
np.moveaxis(C, 0, -1); np.moveaxis(C, [0, 1], [2, 0]); np.rollaxis(C, 2); np.rollaxis(C, 0, 3); np.swapaxes(C, 0, 2); np.transpose(C, (1, 2, 0)); C.T; A.T; np.squeeze(A[:, :1]); np.expand_dims(A, 1); A[:, None]; A[..., 0]; C[..., ::-1]; C[0, :, [0, 2]]; A[A > 2]; C[:, 1, :]; C[-1]; B[[0, 2], [1, 1]]; B[[2, 0]]; B[:, [2, 0]]
np.concatenate((v, v)); np.concatenate((A, A), axis=1); np.vstack((w, w)); np.hstack((v, v)); np.hstack((A, A)); np.column_stack((w, w)); np.stack((w, w), axis=1); np.stack((A, A), axis=-1); np.append(v, 3); np.append(A, A, axis=0); np.append(A, 1)
np.diag(w); np.diag(w, 1); np.diag(B); np.diag(B, -1); np.eye(3); np.eye(3, k=1); np.eye(2, 3); np.identity(2); np.full((2, 2), 3); np.ones_like(A); np.zeros((2, 3)); np.arange(5); np.arange(1, 7, 2); np.arange(0.5, 2, 0.5)
np.round(np.linalg.inv(D) @ D); np.linalg.det(D); np.linalg.norm(w); np.round(D @ np.linalg.solve(D, w)); np.linalg.norm(A); np.mean(A); np.mean(A, axis=0); np.average(v); np.clip(v, 2, 3); np.maximum(v, 2); np.minimum(A, w); np.hypot(w, 2); np.arctan2(w, 2); np.sign(v - 2); np.floor(v / 2); np.ceil(v / 2); np.mod(v, 2); np.floor_divide(v, 2); v // 2; v % 3; -v % 3; np.rint(v / 4)
v.reshape(2, 2); A.reshape(-1); A.reshape((3, -1)); A.ravel(); A.flatten(); np.ravel(A); np.ravel(A, order="F"); A.reshape(3, 2, order="F"); A.sum(); A.sum(axis=0); A.prod(); A.max(); A.min(axis=1); A.mean(); B.trace(); B.diagonal(); A.dot(B); A.copy(); A.transpose(); C.transpose(2, 0, 1); C.swapaxes(0, 1); A.tolist(); A.take([1], axis=1); A.repeat(2); A.cumsum(); A.squeeze(); B.astype(float); w.argmax(); w.argmin(); np.argmax(w); v.any(); v.all(); np.sort(w); np.argsort(w); np.unique(np.array([2, 1, 2])); A.shape; A.ndim; A.size; v.conj(); w.clip(2, 3); w.std(); np.ptp(w); np.median(v); np.count_nonzero(B - 1); np.array_equal(A, A); np.allclose(A, A + 1); np.isclose(v, 2); np.sum(A * B[:2]); A ** 2; 2 ** A; A / 2; A - w; w - A; A * v[:2, None]; A += 1; np.power(A, 2); np.square(v); np.sqrt(v); np.cbrt(v); np.exp2(v); np.reciprocal(v); np.abs(v - 3); np.negative(v); np.divide(v, 2); np.add.reduce(A); np.multiply.outer(v, w); np.add.outer(v, w); np.triu(B) + np.triu(B, 1).T
np.atleast_1d(3); np.atleast_2d(v); np.atleast_3d(A); (v / 2).astype(int); np.asarray(v / 2, int); np.array([1.5, 2.5]).astype(float); A.astype(np.int64); np.array(v, dtype=float); np.eye(3)[[0, 2], 1]; C[[0, 1], :, 1]; C[0, [0, 1]]; C[:, [0, 1], [0, 2]]; C[[0, 1], None, 1]; C[..., [0, 2]]; B[[[0, 1], [1, 2]], 0]; B[None, 1, [0, 2]]
divmod(7, 3); divmod(-7, 3); sum([1, 2, 3]); sum(v); sum(A); min(3, 1, 2); max([4, 9]); sorted([3, 1, 2], reverse=True); list(reversed([1, 2])); list(zip([1, 2], [3, 4])); list(map(lambda x: x + 1, [1, 2])); [x for x in v if x > 2]; dict(a=1)["a"]; list(enumerate([5, 6], 1)); all([1, 0]); any([0, 1]); round(2.5); round(2.567, 2); int(2.7); int(-2.7); float("1.5"); abs(-3); pow(2, 3); 7 // 2; -7 // 2; -7 % 3; 2 ** -1; 1 if [] else 2; [1, 2, 3][-1]; [1, 2, 3][::-1]; (1,) + (2,); [0] * 3; len({1, 1}); bool(0.0); 3 & 1; 3 | 4; 5 ^ 1; 1 << 3; ~2; "abc".upper() == "ABC"; not 0; 1 < 2 < 3; 1 < 2 > 3
list(itertools.product([1, 2], [3, 4])); list(itertools.permutations([1, 2, 3], 2)); list(itertools.combinations([1, 2, 3], 2)); list(itertools.chain([1], [2, 3])); list(itertools.combinations_with_replacement([1, 2], 2)); list(itertools.accumulate([1, 2, 3])); list(itertools.islice([1, 2, 3, 4], 1, 3)); list(itertools.starmap(pow, [(2, 3)])); list(itertools.zip_longest([1, 2], [3], fillvalue=0)); functools.reduce(operator.add, [1, 2, 3]); functools.reduce(lambda a, b: a * b, [1, 2, 3], 2); list(itertools.repeat(1, 3)); operator.itemgetter(1)([4, 5]); math.hypot(3, 4); math.prod([1, 2, 3]); math.fsum([1, 2]); math.comb(4, 2); math.factorial(4); math.gcd(4, 6); math.isclose(1.0, 1.0); math.floor(2.5); math.ceil(2.5); math.trunc(-2.5); math.copysign(2, -1); math.isnan(1.0); math.isinf(1.0); math.isqrt(10); math.pow(2, 3); math.fmod(-7, 3); math.dist([0, 0], [3, 4])
'''
items = [e.strip() for line in EXPR.strip().splitlines() for e in line.split("; ")]
PRE = "import numpy as np\nimport itertools, functools, operator, math\n"
SETUP = '''    A = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])
    B = np.array([[2.0, 1.0, 1.0], [3.0, 1.0, 5.0], [7.0, 8.0, 9.0]])
    D = np.array([[2.0, 1.0, 1.0], [3.0, 2.0, 5.0], [7.0, 8.0, 1.0]])
    C = np.arange(12.0).reshape(2, 2, 3)
    v = np.array([1.0, 2.0, 3.0, 4.0])
    w = np.array([3.0, 1.0, 2.0])
'''
src = PRE
for k, e in enumerate(items):
    body = "    %s\n    return A\n" % e if " += " in e else "    return %s\n" % e
    src += "\n\ndef f%d():\n%s%s" % (k, SETUP, body)
tmp = tempfile.mkdtemp()
os.makedirs(tmp + "/src/einsteinpy")
open(tmp + "/src/einsteinpy/__init__.py", "w").close()
open(tmp + "/src/einsteinpy/probe.py", "w").write(src)
os.environ["SA_REPO"] = tmp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import models, models_lib, harness, terms as tm
from sa.interp import Interp, AnalysisError
from sa.values import *
I = Interp(tmp + "/src")
I.missing = ()
I.load("einsteinpy.probe"); I.seal()
ns = {}
exec(src, ns)


def num(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return float(x)
    if isinstance(x, str):
        return x
    c = tm.as_t(x)
    if c.as_const() is None:
        import re
        z = repr(c).replace("^", "**")
        return float(eval(z, {"sqrt": np.sqrt, "atan2": np.arctan2, "exp": np.exp, "log": np.log}))
    k = c.as_const()
    return float(k) if k is not None else float(tm.numeric(c)) if hasattr(tm, "numeric") else c


def conv(v):
    v = I.force(v)
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Arr):
            a = I.arr(v)
            return ("arr", tuple(a.shape), [conv(x) for x in a.el])
        if isinstance(c, Seq):
            return [conv(x) for x in c.items]
        return repr(c)
    if isinstance(v, (tuple, range)):
        return [conv(x) for x in v]
    if isinstance(v, Opaque):
        return "opaque %s" % v.name
    try:
        return num(v)
    except Exception as e:
        return repr(v)


def rconv(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, [rconv(x) for x in v.ravel()])
    if isinstance(v, (tuple, list, range)):
        return [rconv(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return repr(v)


def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[1] == b[1] and all(close(x, y) for x, y in zip(a[2], b[2]))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return a == b


bad = und = 0
for k, e in enumerate(items):
    try:
        real = rconv(ns["f%d" % k]())
    except Exception as x:
        print("REAL FAILS", e, x); continue
    try:
        got = conv(I.call(I.global_("einsteinpy.probe.f%d" % k), [], {}))
    except AnalysisError as x:
        und += 1
        print("undecided", e, "|", str(x)[:100]); continue
    except Exception as x:
        bad += 1
        print("CRASH", e, "|", type(x).__name__, str(x)[:150]); continue
    if not close(got, real):
        o = "opaque" in repr(got) or "Opaque" in repr(got)
        bad += not o
        print("opaque" if o else "DIFFERENT", e, "|", repr(got)[:150], "|", repr(real)[:150])
print(len(items), "expressions,", bad, "wrong,", und, "undecided")
shutil.rmtree(tmp)
