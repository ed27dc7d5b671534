"""Checks the numpy model against numpy itself on constants (setup_cmd)."""
import math
import os
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import symx  # noqa: E402  pylint: disable=wrong-import-position,unused-import
import numpy as np  # noqa: E402
from symx import core  # noqa: E402
from symx import nparr as N  # noqa: E402
from symx import values as V  # noqa: E402
from symx import world as W  # noqa: E402

DATA = {
    "v": np.array([3., -1., 2., 2., 0.5]),
    "w": np.array([1, 0, 1, 1, 0]),
    "i": np.array([4, 0, 2]),
    "m": np.array([[1., 2., -3.], [4., .5, 6.]]),
    "q": np.array([[2., 1.], [1., 3.]]),
    "t": np.arange(24).reshape(2, 3, 4) - 5.,
    "b": np.array([True, False, True, True, False]),
    "e": np.zeros((0, 2)),
    "n": np.array([1., np.nan, np.inf]),
}

EXPRS = """
np.mean(v)
np.mean(m, axis=0)
np.mean(m, axis=1, keepdims=True)
m.mean()
np.var(v)
np.var(m, axis=0, ddof=1)
np.std(v) ** 2
np.sum(t, axis=(0, 2))
t.sum(axis=-1)
np.prod(v)
v.max(), v.min(), np.max(m, axis=1), np.amin(m)
np.argmin(v), np.argmax(m, axis=1), v.argmax()
np.cumsum(w), np.cumsum(m, axis=1), np.diff(v)
np.sort(v), np.argsort(v, kind="stable"), np.sort(m, axis=0)
np.unique(v)
np.unique(w, return_counts=True)
np.unique(v, return_inverse=True)
np.median(v), np.quantile(v, .25), np.percentile(v, 30)
np.where(b, v, -v), np.where(v > 1)
np.nonzero(w), np.flatnonzero(v > 1), np.argwhere(w)
np.clip(v, 0, 1), v.clip(0, 2), np.clip(m, .5, None)
np.concatenate([v, w]), np.concatenate([m, m], axis=1)
np.r_[v, 1, w], np.r_[0, v], np.c_[v, w], np.c_[w, m.T.sum() + v]
np.c_[np.zeros(2), m], np.c_[np.ones(2, dtype=int), m]
np.stack([v, w]), np.vstack([v, w]), np.hstack([v, w]), np.column_stack([v, w])
np.column_stack([v, np.c_[v, w]])
np.insert(v, 0, 7), np.insert(v, 2, [8, 9]), np.append(v, 3)
np.delete(m, 1, axis=1), np.delete(m, [0, 2], axis=1), np.delete(v, -1)
np.tile(v, (2, 1)), np.repeat(v, 2), np.repeat(m, 2, axis=0)
np.array(v[:, None] + v), v[::-1], v[1:3], m[:, [0, 2]], m[..., [1]], m[[0, 1]]
v[b], v[~b], m[:, m[0] > 0], v[i], t[1, :, 2], t[..., -1]
v[i[:2]], m.T, m.transpose(), m.reshape(-1), m.reshape(3, 2), m.flatten()
np.ravel(v[0]), np.squeeze(v[1]), np.reshape(v[0], (1, 1)), np.ndim(v[0])
np.expand_dims(v[0], 0), np.mean(v[0]), np.sum(v[1]), np.shape(v[0]), np.size(v[0])
np.atleast_1d(v[0]), np.asarray(v[0]), np.full(2, v[0]), np.tile(v[0], 2)
np.max(v[0]), np.var(v[0]), np.broadcast_to(v[0], (2,)), np.repeat(v[0], 2)
m.ravel(), t.reshape(2, -1), np.reshape(v, (5, 1)), v.reshape(-1, 1)
np.dot(v, w), m.dot(m.T), m @ q.T[[0, 1, 1]], v @ v, m.dot(v[:3])
np.matmul(m, m.T), np.inner(v, v), np.outer(v, w), np.einsum("ij,ij->i", m, m)
np.einsum("ij,kj->ik", m, m)
np.diag(v), np.diag(q), np.trace(q), np.eye(3), np.identity(2), np.ones((2, 3))
np.zeros(3, dtype=int), np.full(3, 2.5), np.full((2, 2), 7), np.empty(0)
np.zeros_like(v), np.ones_like(w), np.full_like(v, 3), np.empty_like(e)
np.arange(5), np.arange(1, 9, 3), np.linspace(0, 1, 5)
np.linalg.det(q), np.linalg.inv(q), np.linalg.solve(q, np.array([1., 2.]))
np.linalg.slogdet(q)[1]
np.linalg.norm(v) ** 2
sorted(np.linalg.eigvalsh(q).tolist())
sorted(x + 0. for x in np.linalg.eigvals(q).real)
np.linalg.cholesky(q)[0, 0] ** 2
np.abs(v), np.sign(v), np.square(v), v ** 2, -v, v / 2, 1 / q, v // 2, v % 2
w + 1, w * 2, w / 2, w ** 2, w // 2, 1 - w, w == 1, w > 0, ~b, b & (v > 0)
v > 1, v >= 2, v == 2, v != 2, np.logical_and(b, v > 1), np.logical_not(b)
np.logical_or(b, v > 1), np.maximum(v, w), np.minimum(v, 1), np.fmax(v, w)
np.any(v > 2), np.all(v > 2), (v > 2).any(), (w >= 0).all(), np.any(m > 3, axis=1)
np.isnan(n), np.isinf(n), np.isfinite(n), np.nanmax(n), np.nansum(n[:2])
np.isnan(n).any(), np.nanmean(n[:2]), np.nanmin(n)
np.sqrt(np.array([4., 9.])), np.floor(v), np.ceil(v), np.trunc(-v), np.rint(v)
np.array([1, 2]).dtype.kind, np.array([1., 2]).dtype.kind, (w / 2).dtype.kind
np.array([[1, 2], [3, 4]]), np.array([]), np.asarray([1.5, 2]), np.array(3)
np.array([v, w]).transpose(), np.array([v, v]).shape, np.ndim(v), np.shape(m)
np.size(m), len(m), m.shape, m.ndim, m.size, v.tolist(), v.copy()
np.atleast_1d(3), np.atleast_2d(v), np.squeeze(m[:, :1]), np.expand_dims(v, 1)
np.broadcast_to(v, (2, 5)), np.ravel(m), np.transpose(m), np.swapaxes(t, 0, 1)
np.moveaxis(t, 0, -1), np.flip(v), np.roll(v, 1), np.fliplr(m)
np.split(v[:4], 2), np.array_split(v, 3), np.mod(np.arange(7), 3)
np.count_nonzero(w), np.searchsorted(np.array([1., 2., 3.]), 2.5)
np.bincount(w), np.bincount(w, weights=v), np.bincount(w, minlength=4)
np.isin(v, [2, 3]), np.array_equal(v, v), np.allclose(v, v), np.isclose(v, 2)
np.cov(m), np.average(v, weights=w), np.ptp(v), np.triu(q), np.tril(q)
np.vander(v, 2)
np.meshgrid(v[:2], w[:2])
np.select([v > 1, v < 0], [v, -v], 0), np.piecewise(v, [v > 1], [1, 0])
np.add.reduce(v), np.multiply.outer(v, w), np.add.accumulate(v)
np.divide(v, 2), np.subtract(v, w), np.multiply(v, w), np.power(v, 2), np.negative(v)
np.float64(3), np.int64(3), float(np.float64(2)), int(np.ceil(2.5)), np.floor(2.5)
max(v), min(v), sum(v), sum(w), any(v > 2), all(v > 2), list(v), list(zip(v, w))
[x for x in m], [r.tolist() for r in m], sorted(v.tolist())
np.take(v, [0, 2]), np.choose([0, 1], [v[:2], w[:2]]), np.compress(b, v)
v.astype(int), w.astype(float), b.astype(int), v.astype(bool), (v > 1) * 1
np.nan_to_num(n[:2]), np.copysign(v, -1), np.reciprocal(q), np.hypot(3., 4.)
np.prod(m.shape), e.shape, np.r_[e, np.array([[1., 2.]])], np.sum(e), np.sum(e, axis=0)
np.array([True, False]) | np.array([False, False]), b ^ b, np.logical_xor(b, b)
np.lexsort((v, w)), np.partition(v, 2)[2], np.histogram(v, bins=[-2, 0, 1, 4])[0]
np.exp(np.zeros(2)), np.log(np.ones(2)), np.exp(0), np.log(1.)
np.outer(v, v).shape, np.kron(q, q), np.apply_along_axis(np.sum, 1, m)
np.unravel_index(3, (2, 2)), np.cross(m[0], m[1]), np.tensordot(m, m, axes=([1], [1]))
np.nanargmin(n), np.nanargmax(n[:2])
v.var(), v.std() ** 2, v.prod(), v.cumsum(), v.argsort(kind="stable"), v.dot(w), v.round()
np.concatenate([np.zeros((0, 3)), m]), np.vstack([e, e]).shape
np.array([[]]).shape, np.empty((2, 0)).shape, np.mean(np.array([2, 4])), np.ones(2).sum()
np.interp(1.5, [1., 2.], [10., 20.]), np.sum([1, 2, 3]), np.sum(x for x in [1, 2])
np.max([1, 5, 2]), np.mean([1., 2.]), np.var([1., 2.]), np.min((3, 4))
""".strip().split("\n")

STATEMENTS = """
a = v.copy(); a[0] = 9; r = a
a = v.copy(); a[b] = 0; r = a
a = v.copy(); a[1:3] += 5; r = a
a = m.copy(); a[:, 0] = np.array([7., 8.]); r = a
a = m.copy(); a *= 2; a -= 1; a /= 4; r = a
a = np.zeros(3); a[:] = np.nan; r = a
a = np.empty((2, 2)); a[:] = 4; a.fill(3); r = a
a = v.copy(); a.sort(); r = a
a = np.zeros(5); a += v * w; r = a
a = np.zeros((2, 3)); a[1] = v[:3]; r = a
a = np.zeros(4, dtype=int); a[2] = 3.7; r = a
a = v.copy(); c = a[1:]; c[0] = 100; r = a
a = m.copy(); a[[0, 1], [1, 2]] = 0; r = a
a = w.copy(); a[a == 0] = -1; r = a
a = [0, 0]; np.add.at(z := np.zeros(3), i - i, 1); r = z
""".strip().split("\n")


def plain(x):
  if isinstance(x, (list, tuple)):
    return [plain(e) for e in x]
  if isinstance(x, np.ndarray):
    if isinstance(x, N.SymArr):
      return ("arr", x.shape, x.dtype.kind, [plain(e) for e in x.view(
          np.ndarray).reshape(-1)])
    return ("arr", x.shape, x.dtype.kind if x.dtype != object else "?",
            [plain(e) for e in x.reshape(-1)])
  if isinstance(x, V.SymNum):
    return V.INF if x.pinf is not None else (
        float(x.v) if x.const() else approx(x))
  if isinstance(x, V.SymBool):
    return float(bool(x))
  if isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating)):
    return float(x)
  return x


def approx(x):
  c = core.CTX
  assert c.ensure_model()
  return float(W.val_of(c.model, x.v))


def same(a, b):
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) == 4 and len(b) == 4 and a[0] == "arr" and b[0] == "arr":
      if tuple(a[1]) != tuple(b[1]):
        return False
      if a[3] and a[2] != b[2] and "?" not in (a[2], b[2]):
        return False
      return same(a[3], b[3])
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, float) and isinstance(b, float):
    return (math.isnan(a) and math.isnan(b)) or a == b or (
        abs(a - b) <= 1e-6 * (1 + abs(a)))
  return a == b


def run():
  bad, miss, good = [], [], 0
  path = core.Path([], core.Stats())
  core.CTX = path
  env = W.SymEnv(path)
  ns = dict(env.loader.builtins)
  for src, mode in [(s, "eval") for s in EXPRS] + [
      (s, "exec") for s in STATEMENTS]:
    outs = []
    for sym in (False, True):
      scope = {"__builtins__": ns if sym else __builtins__}
      scope["np"] = env.np if sym else np
      for k, v in DATA.items():
        scope[k] = N.wrap(v) if sym else v.copy()
      if sym:
        tree = __import__("ast").parse(src, mode=mode)
        tree = __import__("ast").fix_missing_locations(
            W._Rewrite().visit(tree))  # pylint: disable=protected-access
        code = compile(tree, "<expr>", mode)
      else:
        code = compile(src, "<expr>", mode)
      try:
        if mode == "eval":
          outs.append(plain(eval(code, scope)))  # pylint: disable=eval-used
        else:
          exec(code, scope)  # pylint: disable=exec-used
          outs.append(plain(scope["r"]))
      except core.Unsupported as e:
        miss.append(f"{src}: {e}")
        break
      except Exception as e:  # pylint: disable=broad-except
        outs.append(f"{type(e).__name__}: {e}" if sym else
                    f"{type(e).__name__}: numpy")
    if len(outs) == 2:
      if same(outs[0], outs[1]):
        good += 1
      else:
        bad.append(f"{src}\n   numpy {outs[0]}\n   model {outs[1]}")
  core.CTX = None
  return good, bad, miss


if __name__ == "__main__":
  with warnings.catch_warnings(), np.errstate(all="ignore"):
    warnings.simplefilter("ignore")
    g, b, ms = run()
  print(f"numpy model: {g} expressions agree, {len(ms)} not modelled, "
        f"{len(b)} differ")
  for line in ms if "-v" in sys.argv else []:
    print("not modelled:", line)
  for line in b:
    print("differs:", line)
  sys.exit(1 if b else 0)
