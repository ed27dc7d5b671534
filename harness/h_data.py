"""Data containers: folds, appending, slicing, covariate selectors."""
from symx.run import job


def units(env, name, n, d, exp=True, rsp=True, binary=False):
  """n units with arbitrary values: (cov rows, exp, rsp)."""
  cov = [[env.real(f"{name}.c{i}{j}") for j in range(d)] for i in range(n)]
  if binary:
    x = [env.int(f"{name}.x{i}", 0, 1) for i in range(n)] if exp else None
  else:
    x = env.reals(f"{name}.x", n) if exp else None
  y = env.reals(f"{name}.y", n) if rsp else None
  return cov, x, y


def make(env, u, d):
  cov, x, y = u
  return env.m.data.ExpData(
      env.mat(cov, d), None if x is None else env.vec(x),
      None if y is None else env.vec(y))


def unit_list(env, e):
  """The units held by an ExpData, as (cov..., exp, rsp) tuples."""
  cov = [list(r) for r in env.rows(e.cov)]
  out = []
  for i, r in enumerate(cov):
    t = list(r)
    for v in (e.exp, e.rsp):
      if v is not None:
        t += env.cells(v)[i:i + 1]
    out.append(tuple(t))
  return out


def tuples(u):
  cov, x, y = u
  out = []
  for i, r in enumerate(cov):
    t = list(r)
    if x is not None:
      t.append(x[i])
    if y is not None:
      t.append(y[i])
    out.append(tuple(t))
  return out


def same_multiset(env, label, want, got, key=0):
  """got is a rearrangement of want; want has pairwise different keys."""
  env.check(label + ".count", len(got) == len(want))
  for w in want:
    hits = [env.ite(env.eq(g[key], w[key]), 1, 0) for g in got]
    env.check(label + ".once", env.eq(sum(hits), 1) if hits else False)
    for g in got:
      env.check(label + ".aligned",
                env.implies(env.eq(g[key], w[key]),
                            env.and_(*[env.eq(a, b) for a, b in zip(g, w)])))


def distinct(env, xs):
  for i, a in enumerate(xs):
    for b in xs[:i]:
      env.assume(env.not_(env.eq(a, b)))


def shapes_ok(env, e, n, d):
  env.check("n_units", e.n_units == n and len(e) == n)
  env.check("n_features", e.n_features == d)
  env.check("cov-shape", tuple(e.cov.shape) == (n, d))
  for v in (e.exp, e.rsp):
    env.check("label-shape", v is None or tuple(v.shape) == (n,))


@job("D01", quick=[dict(n=n, k=k, exp=e, rsp=r)
                   for n, k, e, r in [(0, 1, True, True), (1, 1, True, True),
                                      (1, 2, True, True), (2, 2, True, True),
                                      (3, 2, True, True), (4, 2, True, True),
                                      (5, 2, True, True), (4, 3, True, True),
                                      (2, 3, True, True), (3, 2, False, True),
                                      (3, 2, True, False)]],
     thorough=[dict(n=6, k=2, exp=True, rsp=True),
               dict(n=7, k=2, exp=True, rsp=True),
               dict(n=6, k=3, exp=True, rsp=True),
               dict(n=5, k=4, exp=True, rsp=True)],
     bounds="n <= 5 units (7 thorough), k <= 3 folds (4), 2 covariates")
def k_fold_partitions(env, n, k, exp, rsp):
  u = units(env, "u", n, 2, exp, rsp)
  distinct(env, [t[0] for t in tuples(u)])
  d = make(env, u, 2)
  folds = d.k_fold(k)
  env.check("folds", len(folds) == k)
  got = []
  for f in folds:
    env.check("balanced", n // k <= f.n_units <= -(-n // k))
    shapes_ok(env, f, f.cov.shape[0], 2)
    env.check("exp-kept", (f.exp is None) == (not exp))
    env.check("rsp-kept", (f.rsp is None) == (not rsp))
    got += unit_list(env, f)
  same_multiset(env, "partition", tuples(u), got)
  env.check("source-unchanged", env.eq(unit_list(env, d), tuples(u)))
  env.observe("sizes", [f.n_units for f in folds])


@job("D01", quick=[dict(n=n, k=k) for n, k in [
    (12, 5), (23, 2), (30, 7), (6, 9), (64, 3), (40, 40)]],
     bounds="up to 64 units and 40 folds, responses any values, shuffles that "
     "keep, reverse or rotate")
def large_folds(env, n, k):
  env.few_orders = True
  cov = [[float(i), float(100 + i)] for i in range(n)]
  u = cov, [float(i % 3 == 0) for i in range(n)], env.reals("y", n)
  d = make(env, u, 2)
  folds = d.k_fold(k)
  env.check("folds", len(folds) == k)
  got = []
  for f in folds:
    env.check("balanced", n // k <= f.n_units <= -(-n // k))
    shapes_ok(env, f, f.cov.shape[0], 2)
    got += unit_list(env, f)
  got.sort(key=lambda t: float(t[0]))
  env.check("partition", env.eq(got, tuples(u)))
  env.check("source-unchanged", env.eq(unit_list(env, d), tuples(u)))


@job("D02", quick=[dict(sizes=s, d=d) for s, d in [
    ((10, 15, 1), 3), ((0, 12), 2), ((1,) * 8, 1), ((33, 33), 4)]],
     bounds="up to 8 batches, up to 66 units and 4 covariates, responses any "
     "values")
def large_append(env, sizes, d):
  us, e = [], None
  for t, n in enumerate(sizes):
    u = ([[float(100 * t + i + j) for j in range(d)] for i in range(n)],
         [float((i + t) % 2) for i in range(n)], env.reals(f"y{t}", n))
    b = make(env, u, d)
    us.append(u)
    if e is None:
      e = b
    else:
      e.append(b)
      env.check("other-unchanged", env.eq(unit_list(env, b), tuples(u)))
    want = [r for v in us for r in tuples(v)]
    env.check("appended", env.eq(unit_list(env, e), want))
    shapes_ok(env, e, len(want), d)
  lo = env.choose("lo", (0, 5))
  env.check("slice", env.eq(unit_list(env, e[lo:-1]), want[lo:-1]))


@job("D01", quick=[dict(k=k) for k in (0, -1)], bounds="k in {0, -1}")
def k_fold_rejects(env, k):
  d = make(env, units(env, "u", 2, 1), 1)
  _, e = env.raises(d.k_fold, k)
  env.check("ValueError", isinstance(e, ValueError))


@job("D01", quick=[dict(n=n, exp=e, rsp=r) for n, e, r in [
    (0, True, True), (1, True, True), (2, True, True), (3, True, True),
    (2, False, True), (2, True, False), (2, False, False)]],
     thorough=[dict(n=4, exp=True, rsp=True), dict(n=5, exp=True, rsp=True)],
     bounds="n <= 3 units (5 thorough), 2 covariates, p any real")
def subsample_partitions(env, n, exp, rsp):
  u = units(env, "u", n, 2, exp, rsp)
  distinct(env, [t[0] for t in tuples(u)])
  d = make(env, u, 2)
  p = env.real("p")
  r, e = env.raises(d.subsample, p)
  inside = env.and_(env.le(0, p), env.le(p, 1))
  if e is not None:
    env.check("rejects-only-outside", isinstance(e, ValueError))
    env.check("rejects-only-outside", env.or_(env.lt(p, 0), env.lt(1, p)))
    return
  env.check("rejects-outside", inside)
  a, b = r
  for f in (a, b):
    shapes_ok(env, f, f.cov.shape[0], 2)
    env.check("exp-kept", (f.exp is None) == (not exp))
    env.check("rsp-kept", (f.rsp is None) == (not rsp))
  same_multiset(env, "partition", tuples(u), unit_list(env, a) +
                unit_list(env, b))
  env.check("p-is-one", env.implies(env.eq(p, 1), b.n_units == 0))
  env.check("p-is-zero", env.implies(env.eq(p, 0), a.n_units == 0))
  env.check("source-unchanged", env.eq(unit_list(env, d), tuples(u)))
  env.observe("sizes", [a.n_units, b.n_units])


_FLAGS = [(True, True), (True, False), (False, True), (False, False)]


@job("D02", quick=[dict(n=n, m=m, d=d, fa=fa, fb=fb, da=0)
                   for n, m, d in [(2, 1, 1), (1, 2, 2), (0, 2, 1), (2, 0, 2)]
                   for fa in _FLAGS for fb in _FLAGS] +
     [dict(n=2, m=1, d=2, fa=fa, fb=(True, True), da=da) for da in (-1, 1)
      for fa in _FLAGS],
     thorough=[dict(n=4, m=3, d=3, fa=(True, True), fb=(True, True), da=0)],
     bounds="n, m <= 2 units (4 and 3 thorough), d <= 2 covariates (3); with "
     "and without exposure or response on either side")
def append_extends(env, n, m, d, fa, fb, da):
  ua = units(env, "a", n, d, *fa)
  ub = units(env, "b", m, d + da, *fb)
  a, b = make(env, ua, d), make(env, ub, d + da)
  _, e = env.raises(a.append, b)
  bad = da != 0 or (fa[0] and not fb[0]) or (fa[1] and not fb[1])
  if bad:
    env.check("rejected", isinstance(e, ValueError))
    env.check("rejected-unchanged", env.eq(unit_list(env, a), tuples(ua)))
    shapes_ok(env, a, n, d)
  else:
    env.check("accepted", e is None)
    want = tuples(ua) + [
        tuple(list(r) + ([ub[1][i]] if fa[0] else []) +
              ([ub[2][i]] if fa[1] else [])) for i, r in enumerate(ub[0])]
    env.check("appended", env.eq(unit_list(env, a), want))
    shapes_ok(env, a, n + m, d)
    env.check("exp-kept", (a.exp is None) == (not fa[0]))
    env.check("rsp-kept", (a.rsp is None) == (not fa[1]))
  env.check("other-unchanged", env.eq(unit_list(env, b), tuples(ub)))


@job("D02", quick=[dict(field=f) for f in ("exp", "rsp", "cov")],
     bounds="2 and 1 units; one field of the appended data two-dimensional (the "
     "covariates one-dimensional)")
def append_other_rank(env, field):
  ua, ub = units(env, "a", 2, 1), units(env, "b", 1, 1)
  a = make(env, ua, 1)
  cov, x, y = env.mat(ub[0]), env.vec(ub[1]), env.vec(ub[2])
  if field == "cov":
    cov = env.vec([ub[0][0][0]])
  if field == "exp":
    x = env.mat([ub[1]])
  if field == "rsp":
    y = env.mat([ub[2]])
  _, e = env.raises(a.append, env.m.data.ExpData(cov, x, y))
  env.check("rejected", isinstance(e, ValueError))
  env.check("rejected-unchanged", env.eq(unit_list(env, a), tuples(ua)))
  shapes_ok(env, a, 2, 1)


@job("D02", quick=[dict(n=n, exp=e, rsp=r) for n, (e, r) in
                   [(0, (True, True)), (3, (True, True)), (2, (True, False)),
                    (2, (False, True)), (2, (False, False))]],
     thorough=[dict(n=6, exp=True, rsp=True)],
     bounds="n <= 3 units (6 thorough); slices with start, stop in [0, n+2], "
     "masks, and lists and arrays of two positions")
def slicing_keeps_units_together(env, n, exp, rsp):
  u = units(env, "u", n, 2, exp, rsp)
  d = make(env, u, 2)
  i = env.choose("i", range(n + 3))
  j = env.choose("j", range(n + 3))
  s = d[i:j]
  env.check("slice", env.eq(unit_list(env, s), tuples(u)[i:j]))
  shapes_ok(env, s, len(tuples(u)[i:j]), 2)
  env.check("exp-kept", (s.exp is None) == (not exp))
  env.check("rsp-kept", (s.rsp is None) == (not rsp))
  mask = [env.truth(env.bool(f"m{k}")) for k in range(n)]
  s = d[env.np.array(mask, dtype=bool)]
  env.check("mask", env.eq(unit_list(env, s), [t for t, k in zip(
      tuples(u), mask) if k]))
  if n:
    at = [env.choose(f"at{k}", range(-1, n)) for k in range(2)]
    for key in (at, env.np.array(at)):
      s = d[key]
      env.check("positions", env.eq(unit_list(env, s),
                                    [tuples(u)[k] for k in at]))
      shapes_ok(env, s, 2, 2)
  env.check("source-unchanged", env.eq(unit_list(env, d), tuples(u)))


def _col_check(env, out, d, u, cols, n):
  want = [tuple(r[c] for c in cols) for r in u[0]]
  env.check("columns", env.eq([tuple(r) for r in env.rows(out.cov)], want))
  env.check("n_features", out.n_features == len(cols))
  env.check("n_units", out.n_units == n)
  env.check("exp", env.eq(env.cells(out.exp), u[1]))
  env.check("rsp", env.eq(env.cells(out.rsp), u[2]))
  env.check("source-unchanged", env.eq(unit_list(env, d), tuples(u)))


@job("D03", quick=[dict(n=2, d=d) for d in (1, 2, 3)] + [dict(n=0, d=2)],
     thorough=[dict(n=3, d=4)],
     bounds="n <= 2 units (3 thorough), d <= 3 covariates (4); every selection "
     "of up to 3 columns in any order, also counted from the end")
def covariate_selectors(env, n, d):
  u = units(env, "u", n, d)
  e = make(env, u, d)
  dm = env.m.data
  _col_check(env, dm.get_identity_fn()(e), e, u, list(range(d)), n)
  if d > 1:
    # counted from the start or from the end
    i = env.choose("drop", range(-d, d))
    _col_check(env, dm.get_remove_coordinates_fn(i)(e), e, u,
               [c for c in range(d) if c != i % d], n)
  m = env.choose("m", (1, 2, 3))
  cols = [env.choose(f"c{j}", range(-1, d)) for j in range(m)]
  fn = dm.get_coordinate_mask_fn(cols)
  cols = [c % d for c in cols]
  _col_check(env, fn(e), e, u, cols, n)
  _col_check(env, fn(e), e, u, cols, n)


class Noise:
  """A noise model returning fresh values, of the lengths given."""

  def __init__(self, env, lens):
    self.env, self.lens, self.out, self.asked = env, lens, [], []

  def __call__(self, n):
    k = len(self.out)
    m = n if self.lens[min(k, len(self.lens) - 1)] is None else self.lens[
        min(k, len(self.lens) - 1)]
    v = self.env.real_vec(f"noise{k}.", m)
    self.out.append(v)
    self.asked.append(n)
    return v


@job("D04", quick=[dict(n=n, d=d, g=g, lens=(None,)) for n, d in [
    (1, 1), (2, 1), (2, 2), (3, 1)] for g in (True, False)] +
     [dict(n=3, d=1, g=True, lens=l) for l in (
         (2,), (1,), (4,), (None, 1), (None, 2))],
     thorough=[dict(n=4, d=3, g=True, lens=(None,))],
     bounds="n <= 3 units (4 thorough), d <= 2 features (3)")
def linear_generator(env, n, d, g, lens):
  beta, gamma = env.real_vec("beta", d), env.real_vec("gamma", d)
  tau = env.real("tau")
  noise = Noise(env, lens)
  gen = env.m.data.LinearDataGenerator(
      "lin", d, beta, tau, noise_model=noise, gamma=gamma if g else None)
  out, e = env.raises(gen.generate, n)
  if lens[0] is not None:
    env.check("bad-noise-rejected", isinstance(e, ValueError))
    return
  if e is not None:
    env.check("only-bad-noise-rejected",
              lens != (None,) and isinstance(e, ValueError))
    return
  shapes_ok(env, out, n, d)
  x, t, y = env.rows(out.cov), env.cells(out.exp), env.cells(out.rsp)
  env.check("one-noise-vector", len(noise.out) == 1 and noise.asked == [n])
  eps = env.cells(noise.out[-1])
  env.check("noise-length", len(eps) == n)
  b, gm = env.cells(beta), env.cells(gamma)
  for i in range(n):
    env.check("binary", env.or_(env.eq(t[i], 0), env.eq(t[i], 1)))
    if len(eps) == n:
      env.check("response", env.eq(y[i], sum(
          p * q for p, q in zip(x[i], b)) + tau * t[i] + eps[i]))
  env.check("tau", env.eq(gen.tau, tau))
  env.check("beta", env.eq(env.cells(gen.beta), b))
  env.check("gamma", env.eq(env.cells(gen.gamma), gm if g else [0] * d))
  # the treatment is drawn with probability sigmoid(x . gamma)
  ev = env.events("binomial")
  env.check("one-treatment-draw", len(ev) == 1 and len(ev[0][1]) == n)
  if len(ev) == 1 and len(ev[0][1]) == n:
    for i, (k, p) in enumerate(ev[0][1]):
      s = sum(a * c for a, c in zip(x[i], gm)) if g else 0 * x[i][0]
      env.check("propensity", env.and_(env.eq(k, 1), env.eq(
          p, 1 / (1 + env.exp(-s)))))
      env.check("treatment-is-draw", env.eq(t[i], ev[0][2][i]))


@job("D04", quick=[dict(d=1, m=2), dict(d=2, m=1), dict(d=2, m=3)],
     bounds="d <= 2 features")
def linear_generator_rejects_gamma(env, d, m):
  _, e = env.raises(env.m.data.LinearDataGenerator, "lin", d,
                    env.real_vec("beta", d), env.real("tau"),
                    gamma=env.real_vec("gamma", m))
  env.check("ValueError", isinstance(e, ValueError))


@job("D04", quick=[dict(n=n) for n in (0, 1, 3)], bounds="n <= 3 units")
def base_generator(env, n):
  out = env.m.data.DataGenerator("base").generate(n)
  shapes_ok(env, out, n, out.cov.shape[1])
  env.check("exp-shape", len(env.cells(out.exp)) == n)
