"""The nuisance parameters: scores, gating, widths, truth."""
from symx.run import job
from harness.h_tabular import distinct_values


# -- data ---------------------------------------------------------------
def unit_rows(env, name, n, d, exp="int", zfn=None):
  """n units as lists (x, y, z...)."""
  out = []
  for i in range(n):
    x = env.int(f"{name}.x{i}", 0, 1) if exp == "int" else (
        env.real(f"{name}.x{i}") if exp == "real" else exp[i])
    z = [env.real(f"{name}.z{i}{j}") for j in range(d)]
    out.append([x, env.real(f"{name}.y{i}")] + z)
  return out


def expdata(env, units, d, floats=False):
  xs = [u[0] for u in units]
  return env.m.data.ExpData(
      env.mat([u[2:] for u in units], d),
      env.farray(xs, (len(xs),)) if floats else env.vec(xs),
      env.vec([u[1] for u in units]))


def scores(env, eta, units, d, floats=False):
  s = eta.calculate_score(expdata(env, units, d, floats))
  env.check("one-score-per-unit", tuple(s.shape) == (len(units),))
  return env.cells(s)


def clip(env, p, lo, hi):
  return env.ite(env.lt(p, lo), lo, env.ite(env.lt(hi, p), hi, p))


def overlap(env):
  return env.real("min_overlap", lo=env.const(0.000001), lt=env.const(0.5))


def ask1(env, model, *row):
  """One prediction of a regressor."""
  return env.cells(model.predict(env.mat([list(row)], len(row))))[0]


def prob1(env, model, *row):
  return env.cells(model.predict_proba(env.mat([list(row)], len(row))))[1]


def aipw(env, d, **kw):
  """AIPW with arbitrary predictors, fit to two units."""
  sk = env.sk
  eta = env.m.parameters.AIPW(d, sk.linear_model.Ridge(),
                              sk.linear_model.LogisticRegression(),
                              **dict(dict(min_units=1), **kw))
  eta.fit(expdata(env, unit_rows(env, "fit", 2, d, exp=(0, 1)), d))
  return eta


KINDS = ("AIPWLinearLogistic", "AIPWKernelRidgeLogistic",
         "AIPWKernelGradientBoosting")


def any_aipw(env, kind, d, **kw):
  if kind == "AIPW":
    return aipw(env, d, **kw)
  eta = getattr(env.m.parameters, kind)(d, **dict(dict(min_units=1), **kw))
  eta.fit(expdata(env, unit_rows(env, "fit", 2, d, exp=(0, 1)), d))
  return eta


# -- AIPW -----------------------------------------------------------------
@job("N01", quick=[dict(kind=k, n=2, d=d) for k in ("AIPW",) + KINDS
                   for d in (1, 2)],
     thorough=[dict(kind="AIPW", n=4, d=3)],
     bounds="2 scored units (4 thorough), 1 or 2 covariates (3), any "
     "predictors", timeout_ms=60000)
def aipw_formula(env, kind, n, d):
  ov = overlap(env)
  eta = any_aipw(env, kind, d, min_overlap=ov)
  units = unit_rows(env, "u", n, d)
  got = scores(env, eta, units, d)
  for (x, y, *z), s in zip(units, got):
    m0, m1 = ask1(env, eta.response, 0, *z), ask1(env, eta.response, 1, *z)
    e = clip(env, prob1(env, eta.propensity, *z), ov, 1 - ov)
    treated = m1 - m0 + (y - m1) / e
    control = m1 - m0 - (y - m0) / (1 - e)
    env.check("score", env.eq(s, env.ite(env.eq(x, 1), treated, control)))
  env.observe("scores", got)


@job("N01", quick=[dict(d=1), dict(d=2)],
     bounds="any covariates (1 or 2), any true regressions and propensity, "
     "any fitted predictors", timeout_ms=60000)
def double_robustness(env, d):
  ov = overlap(env)
  eta = aipw(env, d, min_overlap=ov)
  z = env.reals("z", d)
  m0, m1 = env.real("true.m0"), env.real("true.m1")
  e = env.real("true.e")
  env.assume(env.and_(env.le(ov, e), env.le(e, 1 - ov)))
  s1, s0 = scores(env, eta, [[1, m1] + z, [0, m0] + z], d)
  mean = e * s1 + (1 - e) * s0
  right_e = env.eq(prob1(env, eta.propensity, *z), e)
  right_m = env.and_(env.eq(ask1(env, eta.response, 0, *z), m0),
                     env.eq(ask1(env, eta.response, 1, *z), m1))
  env.check("propensity-right", env.implies(right_e, env.eq(mean, m1 - m0)))
  env.check("response-right", env.implies(right_m, env.eq(mean, m1 - m0)))


@job("N02", quick=[dict(kind=k, d=1) for k in ("AIPW",) + KINDS],
     thorough=[dict(kind="AIPW", d=3)],
     bounds="any predicted probability in [0,1], any min_overlap in (0,1/2)",
     timeout_ms=60000)
def overlap_bounds_the_score(env, kind, d):
  ov = overlap(env)
  eta = any_aipw(env, kind, d, min_overlap=ov)
  units = unit_rows(env, "u", 1, d)
  got, e = env.raises(scores, env, eta, units, d)
  env.check("accepted", e is None)
  if e is not None:
    return
  (x, y, *z), s = units[0], got[0]
  m0, m1 = ask1(env, eta.response, 0, *z), ask1(env, eta.response, 1, *z)
  p = prob1(env, eta.propensity, *z)
  gap = s - (m1 - m0)
  res = y - env.ite(env.eq(x, 1), m1, m0)
  # a weight between 1 and 1 / min_overlap, of the sign of the group
  sgn = env.ite(env.eq(x, 1), gap, -gap)
  pos = env.le(0, res)
  r = env.ite(pos, res, -res)
  g = env.ite(pos, sgn, -sgn)
  env.check("at-least-one", env.le(r, g))
  env.check("at-most", env.le(g * ov, r))
  own = env.ite(env.eq(x, 1), p, 1 - p)
  env.check("untouched-inside", env.implies(
      env.and_(env.le(ov, own), env.le(own, 1 - ov)), env.eq(g * own, r)))


# -- gating ---------------------------------------------------------------
def gated(env, kind, d, m):
  p = env.m.parameters
  if kind == "AIPW":
    return p.AIPW(d, env.sk.linear_model.Ridge(),
                  env.sk.linear_model.LogisticRegression(), min_units=m)
  if kind == "Linear":
    return p.LinearParameterBinaryTreatment(d)
  return getattr(p, kind)(d, min_units=m)


@job("N03", quick=[dict(kind=k, n=n) for k in (
    "AIPW", "FrontDoorLinearFiniteZ", "Linear") for n in (0, 1, 2, 3)] +
     [dict(kind=k, n=2) for k in KINDS],
     thorough=[dict(kind=k, n=n) for k in (
         "AIPW", "FrontDoorLinearFiniteZ", "Linear") for n in (4, 5)] +
     [dict(kind=k, n=4) for k in KINDS],
     bounds="up to 3 units (5 thorough), any treatments, any min_units >= 0",
     timeout_ms=60000)
def enough_of_both_groups(env, kind, n):
  m = 1 if kind == "Linear" else env.int("min_units", 0, n + 1)
  eta = gated(env, kind, 1, m)
  env.check("not-yet", not env.truth(eta.has_enough_samples()))
  units = unit_rows(env, "u", n, 1)
  floats = env.choose("floats", (False, True))
  eta.fit(expdata(env, units, 1, floats))
  treated = sum(1 for u in units if env.truth(env.eq(u[0], 1)))
  enough = 0 < treated < n and env.truth(
      env.and_(env.le(m, treated), env.le(m, n - treated)))
  env.check("enough", env.truth(eta.has_enough_samples()) == enough)
  got, e = env.raises(scores, env, eta, unit_rows(env, "q", 2, 1), 1)
  env.check("scores-defined", e is not None or all(
      env.isnan(s) for s in got) or enough)
  if enough:
    env.check("scores", e is None)
    env.check("not-nan", e is None and not any(env.isnan(s) for s in got))
  env.check("recent", eta.recent_data is not None and
            len(eta.recent_data) == n)


@job("N03", quick=[dict(kind=k) for k in (
    "AIPW", "FrontDoorLinearFiniteZ", "Linear") + KINDS],
     bounds="a fit to both groups, then a fit to one group only, 2 units each")
def later_bad_fit_keeps_the_model(env, kind):
  eta = gated(env, kind, 1, 1)
  eta.fit(expdata(env, unit_rows(env, "fit", 2, 1, exp=(1, 0)), 1))
  q = unit_rows(env, "q", 1, 1)
  before = scores(env, eta, q, 1)
  g = env.choose("group", (0, 1))
  eta.fit(expdata(env, unit_rows(env, "bad", 2, 1, exp=(g, g)), 1))
  env.check("still-enough", env.truth(eta.has_enough_samples()))
  env.check("same-scores", env.eq(scores(env, eta, q, 1), before))


# -- the front door ---------------------------------------------------------
def fd(env, d, **kw):
  return env.m.parameters.FrontDoorLinearFiniteZ(d, **kw)


class Table:
  """P(z|x), P(x) and the support, from an independent fit of the data."""

  def __init__(self, env, units, d, ratio, ov):
    t = env.m.data.TabularCPD(ratio)
    t.fit(env.vec([u[0] for u in units], integer=True),
          env.mat([u[2:] for u in units], d))
    self.zs, _ = distinct_values(env, [u[2:] for u in units])
    self.p = {}
    for v in (0, 1):
      for k, z in enumerate(self.zs):
        self.p[v, k] = env.cells(t.predict(
            env.vec([v], integer=True), env.mat([z], d)))[0]
    share = sum(u[0] for u in units) / env.const(len(units))
    self.px = clip(env, share, ov, 1 - ov)


def fd_value(env, eta, t, ov, x, y, k):
  """The front-door score of a unit (x in {0,1}, y, z = k-th value)."""

  def mu(v, j):
    return ask1(env, eta.y_response, v, *t.zs[j])

  def cp(v):
    return clip(env, t.p[v, k], ov, 1 - ov)
  f1 = sum((mu(x, j) * (t.p[1, j] - t.p[0, j]) for j in range(len(t.zs))), 0)
  f2 = t.px * mu(1, k) + (1 - t.px) * mu(0, k)
  f3 = sum(((t.px * mu(1, j) + (1 - t.px) * mu(0, j)) * t.p[x, j]
            for j in range(len(t.zs))), 0)
  w = 1 / t.px if x else -1 / (1 - t.px)
  return (y - mu(x, k)) * (cp(1) - cp(0)) / cp(x) + f1 + w * (f2 - f3)


FD_FITS = [(0, 1), (1, 0, 1), (0, 1, 1, 0)]


@job("N05", quick=[dict(exp=e, d=d) for e, d in [
    ((0, 1), 1), ((0, 1), 2), ((1, 0, 1), 1), ((1, 0, 1), 2)]],
     thorough=[dict(exp=(0, 1, 1, 0), d=1), dict(exp=(1, 0, 0, 1), d=2)],
     bounds="fit to 3 units (4 thorough), 1 or 2 covariates with any values, "
     "any min_overlap in (0,1/2), any min_ratio_to_uniform >= 1",
     timeout_ms=60000)
def front_door_formula(env, exp, d):
  ov, ratio = overlap(env), env.real("ratio", lo=1)
  units = unit_rows(env, "fit", len(exp), d, exp=exp)
  eta = fd(env, d, min_units=1, min_overlap=ov, min_ratio_to_uniform=ratio)
  eta.fit(expdata(env, units, d))
  t = Table(env, units, d, ratio, ov)
  q, want = [], []
  x = env.choose("x", (0, 1))
  for k, z in enumerate(t.zs):
    y = env.real(f"y{k}")
    q.append([x, y] + z)
    want.append(fd_value(env, eta, t, ov, x, y, k))
  got = scores(env, eta, q, d)
  for s, w in zip(got, want):
    env.check("score", env.eq(s, w))
  env.observe("scores", got)


@job("N04", quick=[dict(exp=e, d=d) for e, d in [
    ((0, 1), 1), ((0, 1), 2), ((1, 0, 1), 1), ((0, 1, 0, 1), 1)]],
     thorough=[dict(exp=(0, 1, 1, 0, 1), d=1), dict(exp=(1, 0, 0, 1), d=2)],
     bounds="fit to up to 4 units (5 thorough), 1 or 2 covariates with any "
     "values, any outcome regression", timeout_ms=60000)
def front_door_identification(env, exp, d):
  # the overlap limit stays out of the way
  n = len(exp)
  ov = env.const(0.5) / (2 * n * n)
  ratio = n
  units = unit_rows(env, "fit", n, d, exp=exp)
  eta = fd(env, d, min_units=1, min_overlap=ov, min_ratio_to_uniform=ratio)
  eta.fit(expdata(env, units, d))
  t = Table(env, units, d, ratio, ov)
  if any(env.truth(env.or_(env.lt(p, ov), env.lt(1 - ov, p)))
         for p in t.p.values()):
    env.cut("a probability beyond the overlap limit")
  px = sum(exp) / env.const(n)
  acc = 0
  for x in (0, 1):
    qs = []
    for k, z in enumerate(t.zs):
      qs.append([x, ask1(env, eta.y_response, x, *z)] + z)
    for k, s in enumerate(scores(env, eta, qs, d)):
      acc = acc + (px if x else 1 - px) * t.p[x, k] * s
  ate = 0
  for k, z in enumerate(t.zs):
    m = px * ask1(env, eta.y_response, 1, *z) + (1 - px) * ask1(
        env, eta.y_response, 0, *z)
    ate = ate + (t.p[1, k] - t.p[0, k]) * m
  env.check("front-door-effect", env.eq(acc, ate))


@job("N05", quick=[dict(d=1), dict(d=2)],
     bounds="fit to 3 units, 2 scored units", timeout_ms=60000)
def front_door_encoding(env, d):
  exp = (1, 0, 1)
  units = unit_rows(env, "fit", 3, d, exp=exp)
  a, b = (fd(env, d, min_units=1) for _ in range(2))
  a.fit(expdata(env, units, d))
  b.fit(expdata(env, units, d, floats=True))
  q = [[env.choose("x", (0, 1)), env.real("y")] + units[i][2:] for i in (0, 1)]
  env.check("integer-or-float", env.and_(
      env.eq(scores(env, a, q, d), scores(env, b, q, d)),
      env.eq(scores(env, a, q, d), scores(env, a, q, d, floats=True))))


# -- linear models ------------------------------------------------------------
def ridge_first(env, rows, ys, reg):
  """First coordinate of the ridge solution, by Cramer's rule."""
  d = len(rows[0])
  g = [[sum((r[i] * r[j] for r in rows), 0) + (reg if i == j else 0)
        for j in range(d)] for i in range(d)]
  b = [sum((r[i] * y for r, y in zip(rows, ys)), 0) for i in range(d)]
  return det(with_col(g, b)), det(g)


def with_col(g, b):
  return [[b[i]] + row[1:] for i, row in enumerate(g)]


def det(m):
  if len(m) == 1:
    return m[0][0]
  acc = 0
  for j, c in enumerate(m[0]):
    sub = [r[:j] + r[j + 1:] for r in m[1:]]
    acc = acc + (c if j % 2 == 0 else -c) * det(sub)
  return acc


@job("N06", quick=[dict(n=1, d=1, m=1), dict(n=2, d=1, m=2), dict(n=2, d=1, m=1),
                   dict(n=3, d=1, m=3)],
     thorough=[dict(n=3, d=1, m=2), dict(n=2, d=2, m=2)],
     bounds="fit to up to 3 units, 1 covariate (2 thorough), any real "
     "treatments, any regularisation > 0", timeout_ms=120000)
def linear_regression_effect(env, n, d, m):
  reg = env.real("l_reg", gt=0)
  units = unit_rows(env, "fit", n, d, exp="real")
  eta = env.m.parameters.LinearRegressionParameter(d, reg)
  env.check("not-yet", not env.truth(eta.has_enough_samples()))
  eta.fit(expdata(env, units, d))
  env.check("enough", env.truth(eta.has_enough_samples()))
  q = units if m == n else unit_rows(env, "q", m, d, exp="real")
  s = scores(env, eta, q, d)
  # mean score = e_1' (X'X / n + reg I / n)^-1 (1/m) Xq' yq
  rows = [[u[0]] + u[2:] for u in units]
  size = d + 1
  g = [[sum((r[i] * r[j] for r in rows), 0) + (reg if i == j else 0)
        for j in range(size)] for i in range(size)]
  b = [sum(((([u[0]] + u[2:])[i]) * u[1] for u in q), 0) for i in range(size)]
  num, den = det(with_col(g, b)), det(g)
  env.check("coefficient", env.eq(sum(s, 0) * den, n * num))


@job("N07", quick=[dict(n=2, d=1), dict(n=3, d=1), dict(n=3, d=2)],
     thorough=[dict(n=5, d=2)],
     bounds="fit to up to 3 units (5 thorough) of both groups, 2 scored units, "
     "1 or 2 covariates", timeout_ms=60000)
def plug_in_difference(env, n, d):
  units = unit_rows(env, "fit", n, d)
  on = [env.truth(env.eq(u[0], 1)) for u in units]
  treated = [u for u, t in zip(units, on) if t]
  control = [u for u, t in zip(units, on) if not t]
  if not treated or not control:
    env.cut("one group only")
  # so that the two fits can be told apart
  for a in treated:
    for b in control:
      env.assume(env.not_(env.eq(a[1], b[1])))
  eta = env.m.parameters.LinearParameterBinaryTreatment(d)
  eta.fit(expdata(env, units, d))
  fits = env.events("fit")
  want = {}
  for name, grp in (("t", treated), ("c", control)):
    hits = [f for f in fits if len(f[4]) == len(grp) and env.truth(env.and_(
        env.eq(env.rows(f[3]), [u[2:] for u in grp]),
        env.eq(env.cells(f[4]), [u[1] for u in grp])))]
    env.check("fit-to-group", bool(hits))
    if not hits:
      return
    want[name] = hits[0]
  env.check("two-fits", len(fits) == 2)
  q = unit_rows(env, "q", 2, d)
  got = scores(env, eta, q, d)
  for u, s in zip(q, got):
    z = u[2:]
    env.check("difference", env.eq(
        s, env.fn(want["t"][2], z) - env.fn(want["c"][2], z)))


# -- widths -----------------------------------------------------------------
def positive(env, *names):
  return [env.real(n, gt=0) for n in names]


@job("N08", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)],
     bounds="1 or 2 units (3 thorough), 1 covariate", timeout_ms=60000)
def aipw_width(env, n):
  ov = overlap(env)
  eta = gated(env, "AIPW", 1, 1)
  eta = env.m.parameters.AIPW(1, env.sk.linear_model.Ridge(),
                              env.sk.linear_model.LogisticRegression(),
                              min_overlap=ov)
  units = unit_rows(env, "fit", n, 1)
  eta.fit(expdata(env, units, 1))
  s, rho = positive(env, "sub_g", "rho")
  d = env.real("delta", gt=0, lt=1)
  w = eta.calculate_cs_width(d, s, rho)
  v = sum((u[2] * u[2] for u in units), 0)
  if env.truth(env.eq(v, 0)):
    env.check("no-information", env.isposinf(w))
    return
  r = env.sqrt(s * (env.log(s * v + rho) - env.log(rho * d * d)))
  lam = v * v / (v + rho / s)
  env.check("width", env.eq(w, r / env.sqrt(lam) * (1 / ov - 1)))


def width_of(env, kind, ov, units, dim):
  if kind == "AIPW":
    eta = env.m.parameters.AIPW(dim, env.sk.linear_model.Ridge(),
                                env.sk.linear_model.LogisticRegression(),
                                min_units=1, min_overlap=ov)
  else:
    eta = fd(env, dim, min_units=1, min_overlap=ov)
  eta.fit(expdata(env, units, dim))
  return eta


@job("N08", quick=[dict(kind="AIPW", n=2, d=1), dict(kind="FrontDoor", n=2, d=1)],
     thorough=[dict(kind="AIPW", n=2, d=2), dict(kind="FrontDoor", n=3, d=1)],
     bounds="2 units (3 thorough), 1 covariate (2 for AIPW thorough), any two "
     "deltas, scale any value > 0, rho any value >= 1/100; front-door covariates "
     "in {0,1,2}", timeout_ms=120000)
def width_monotone(env, kind, n, d):
  ov = overlap(env)
  units = unit_rows(env, "fit", n, d, exp=(0, 1, 0)[:n])
  if kind == "FrontDoor":
    for u in units:
      u[2:] = [env.choose("z", (0, 1, 2)) for _ in range(d)]
  eta = width_of(env, kind, ov, units, d)
  s = env.real("sub_g", gt=0)
  rho = env.real("rho", lo=env.const(0.01))
  d1 = env.real("d1", gt=0, lt=1)
  d2 = env.real("d2", gt=0, lt=1)
  env.assume(env.lt(d1, d2))
  w1 = eta.calculate_cs_width(d1, s, rho)
  w2 = eta.calculate_cs_width(d2, s, rho)
  env.check("not-nan", env.not_(env.or_(env.isnan(w1), env.isnan(w2))))
  env.check("nonnegative", env.and_(env.le(0, w1), env.le(0, w2)))
  env.check("monotone", env.le(w2, w1))


def least_eigenvalue(env, a, b, c, g):
  """Of V (V + g I)^-1 V for V = [[a, b], [b, c]]."""
  q = (a + g) * (c + g) - b * b
  i, j, k = (c + g) / q, -b / q, (a + g) / q
  top = env.np.array([[a * (a * i + b * j) + b * (a * j + b * k),
                       a * (b * i + c * j) + b * (b * j + c * k)],
                      [b * (a * i + b * j) + c * (a * j + b * k),
                       b * (b * i + c * j) + c * (b * j + c * k)]])
  return env.np.linalg.eigvalsh(top)[0]


@job("N08", quick=[dict(rows=r) for r in [
    ((1, 0), (0, 3)), ((1, 2), (2, 1)), ((1, 1), (1, 1)),
    ((1, 2), (0, 1), (2, -1), (1, 1))]],
     bounds="2 to 4 units with given covariates of dimension 2, any delta, scale "
     "and rho", timeout_ms=60000)
def aipw_width_given(env, rows):
  ov = overlap(env)
  units = unit_rows(env, "fit", len(rows), 2)
  for u, z in zip(units, rows):
    u[2:] = [env.const(x) for x in z]
  eta = width_of(env, "AIPW", ov, units, 2)
  s, rho = positive(env, "sub_g", "rho")
  d = env.real("delta", gt=0, lt=1)
  w = eta.calculate_cs_width(d, s, rho)
  a, b, c = (sum(x * y for x, y in zip(p, q)) for p, q in zip(
      [[r[i] for r in rows] for i in (0, 0, 1)],
      [[r[i] for r in rows] for i in (0, 1, 1)]))
  if a * c - b * b == 0:
    env.check("no-information", env.isposinf(w))
    return
  det = (s * a + rho) * (s * c + rho) - s * b * s * b
  r = env.sqrt(s * (env.log(det) - env.log(rho * rho * d * d)))
  env.check("width", env.eq(w, r / env.sqrt(least_eigenvalue(
      env, a, b, c, rho / s)) * (1 / ov - 1)))


@job("N08", quick=[dict(exp=x, zs=z) for x, z in [
    ((1,), (1,)), ((0, 1), (0, 1)), ((0, 1), (1, 0)), ((0, 1), (2, 1)),
    ((0, 0, 0), (0, 1, 2)), ((1, 1, 0, 0), (0, 0, 2, 1)),
    ((1, 1, 0), (0, 1, 2)), ((1, 0, 1, 0, 1), (2, 1, 0, 2, 2))]],
     bounds="1 to 5 units with given treatments and front-door covariates, any "
     "delta, scale and rho", timeout_ms=60000)
def frontdoor_width(env, exp, zs):
  ov = overlap(env)
  n = len(exp)
  units = unit_rows(env, "fit", n, 1, exp=exp)
  for u, z in zip(units, zs):
    u[2] = z
  eta = width_of(env, "FrontDoor", ov, units, 1)
  s, rho = positive(env, "sub_g", "rho")
  d = env.real("delta", gt=0, lt=1)
  w = eta.calculate_cs_width(d, s, rho)
  a, b, c = (sum(f(u) for u in units) for f in (
      lambda u: u[0], lambda u: u[0] * u[2], lambda u: u[2] * u[2]))
  if a * c - b * b == 0 or env.truth(env.le(9 * n * 36 * rho, d * d)):
    # some direction was not observed, or the boundary is not in force yet
    env.check("no-information", env.isposinf(w))
    return
  e = d / 3
  det = (s * a + rho) * (s * c + rho) - s * b * s * b
  r = env.sqrt(s * (env.log(det) - env.log(rho * rho * e * e)))
  mu = r / env.sqrt(least_eigenvalue(env, a, b, c, rho / s))
  t = env.sqrt((env.const(0.25) + rho / n) / n * env.log(
      (n * env.const(0.25) + rho) / (e * e / 9 * rho)))
  env.check("width", env.eq(w, mu * (2 / ov - 1) + t * (1 / ov - 1)))


# -- reset, batches, truth ------------------------------------------------------
ALL = ("AIPW", "FrontDoorLinearFiniteZ", "Linear", "LinearRegressionParameter"
       ) + KINDS


def build(env, kind, d):
  p = env.m.parameters
  if kind == "LinearRegressionParameter":
    return p.LinearRegressionParameter(d, env.const(0.25))
  if kind == "FrontDoorLinearFiniteZ":
    return p.FrontDoorLinearFiniteZ(d, 1, env.const(0.125), 7)
  if kind == "AIPW":
    return p.AIPW(d, env.sk.linear_model.Ridge(),
                  env.sk.linear_model.LogisticRegression(), 1,
                  env.const(0.125))
  if kind == "Linear":
    return p.LinearParameterBinaryTreatment(d)
  return getattr(p, kind)(d, 1, env.const(0.125))


def same_outcome(env, label, a, b):
  """Two raises() outcomes agree."""
  (x, e), (y, f) = a, b
  env.check(label, type(e) is type(f) and (e is not None or env.eq(x, y)))


@job("N09", quick=[dict(kind=k) for k in ALL],
     bounds="fit to 2 units, reset, fit to 2 units, 2 scored units",
     timeout_ms=60000)
def reset_forgets(env, kind):
  d = 1
  used, new = build(env, kind, d), build(env, kind, d)
  q = unit_rows(env, "q", 2, d)
  used.fit(expdata(env, unit_rows(env, "old", 2, d, exp=(0, 1)), d))
  scores(env, used, q, d)
  used.reset()
  env.check("not-enough", env.truth(used.has_enough_samples()) ==
            env.truth(new.has_enough_samples()))
  same_outcome(env, "unfitted", env.raises(scores, env, used, q, d),
               env.raises(scores, env, new, q, d))
  env.check("no-recent-data", used.recent_data is None)
  units = unit_rows(env, "new", 2, d)
  for x in (used, new):
    x.fit(expdata(env, units, d))
  env.check("enough", env.truth(used.has_enough_samples()) ==
            env.truth(new.has_enough_samples()))
  same_outcome(env, "refitted", env.raises(scores, env, used, q, d),
               env.raises(scores, env, new, q, d))


REFITS = (((0, 1), (1, 0)), ((0, 1, 0), (0, 1)), ((1, 0), (0, 0, 1)),
          ((0, 1), (1, 1, 0)), ((0, 1), (0, 0), (1, 0)))


@job("N12", quick=[dict(kind=k, fits=f) for k in ALL for f in REFITS
                   if k != "FrontDoorLinearFiniteZ" or len(f[-1]) < 3] + [
    dict(kind="FrontDoorLinearFiniteZ", fits=f, given=True) for f in REFITS],
     thorough=[dict(kind="FrontDoorLinearFiniteZ", fits=f) for f in REFITS
               if len(f[-1]) > 2],
     bounds="two fits of 2 or 3 units to both groups, also with one to a single "
     "group in between; 2 scored units, 1 covariate; front-door refits to 2 units (3 thorough) after "
     "given ones, its width on given data",
     timeout_ms=60000)
def refit_forgets(env, kind, fits, given=False):
  d = 1
  used, new = build(env, kind, d), build(env, kind, d)
  q = unit_rows(env, "q", 2, d)
  for k, exp in enumerate(fits):
    units = [[x, env.const(3 * k + i), env.const(i * i - k / 4)]
             for i, x in enumerate(exp)] if given or (
                 kind[0] == "F" and k + 1 < len(fits)) else unit_rows(
                 env, f"fit{k}.", len(exp), d, exp=exp)
    used.fit(expdata(env, units, d))
    if len(set(exp)) > 1 and k + 1 < len(fits):
      # the front-door parameter scores given units: few cases
      scores(env, used, units if kind[0] == "F" else q, d)
  new.fit(expdata(env, units, d))
  env.check("enough", env.truth(used.has_enough_samples()) and
            env.truth(new.has_enough_samples()))
  same_outcome(env, "refitted", env.raises(scores, env, used, q, d),
               env.raises(scores, env, new, q, d))
  if given or kind.startswith("AIPW"):
    ask = (env.const(0.25), env.const(1), env.const(1))
    env.check("width", env.eq(used.calculate_cs_width(*ask),
                              new.calculate_cs_width(*ask)))


@job("N10", quick=[dict(kind=k, d=d) for k in ALL for d in (1, 2)],
     bounds="fit to 2 units, 3 scored units, 1 or 2 covariates",
     timeout_ms=60000)
def batch_scores(env, kind, d):
  eta = build(env, kind, d)
  fit = unit_rows(env, "fit", 2, d, exp=(0, 1))
  fd_ = expdata(env, fit, d)
  eta.fit(fd_)
  q = unit_rows(env, "q", 2, d) + [[1, env.real("y")] + fit[0][2:]]
  e = expdata(env, q, d)
  got = env.cells(eta.calculate_score(e))
  ones = [scores(env, eta, [u], d)[0] for u in q]
  env.check("one-at-a-time", env.eq(got, ones))
  rev = scores(env, eta, q[::-1], d)
  env.check("order", env.eq(got, rev[::-1]))
  env.check("again", env.eq(got, scores(env, eta, q, d)))
  # neither fitting nor scoring changes the data
  for dd, us in ((fd_, fit), (e, q)):
    env.check("data-kept", env.and_(
        env.eq(env.rows(dd.cov), [u[2:] for u in us]),
        env.eq(env.cells(dd.exp), [u[0] for u in us]),
        env.eq(env.cells(dd.rsp), [u[1] for u in us])))


@job("N11", quick=[dict(kind=k, d=d) for k in ("Linear", "AIPWLinearLogistic")
                   for d in (1, 2)],
     bounds="1 or 2 covariates, any coefficients; the parameter fresh or "
     "already fit", timeout_ms=60000)
def truth(env, kind, d):
  beta, tau = env.reals("beta", d), env.real("tau")
  gamma = env.reals("gamma", d)
  gen = env.m.data.LinearDataGenerator("g", d, env.vec(beta), tau,
                                       gamma=env.vec(gamma))
  eta = build(env, kind, d)
  if env.choose("fitted", (False, True)):
    eta.fit(expdata(env, unit_rows(env, "fit", 2, d, exp=(0, 1)), d))
  eta.set_to_truth(gen)
  env.check("enough", env.truth(eta.has_enough_samples()))
  z = env.reals("z", d)
  x = env.choose("x", (0, 1))
  y = tau * x
  for b, c in zip(beta, z):
    y = y + b * c
  env.check("true-effect", env.eq(scores(env, eta, [[x, y] + z], d), [tau]))
  if kind == "Linear":
    return
  # noise is weighted by the true probability of the group, within the overlap
  eps, dot = env.real("eps"), 0
  for g, c in zip(gamma, z):
    dot = dot + g * c
  p = clip(env, 1 / (1 + env.exp(-dot)), env.const(0.125), env.const(0.875))
  env.check("true-propensity", env.eq(
      scores(env, eta, [[x, y + eps] + z], d),
      [tau + (eps / p if x else -eps / (1 - p))]))


@job("N11", quick=[dict(fitted=f) for f in (False, True)],
     bounds="a generator that only looks linear; parameter fresh or fit")
def truth_not_identifiable(env, fitted):
  eta = build(env, "AIPWLinearLogistic", 1)
  if fitted:
    eta.fit(expdata(env, unit_rows(env, "fit", 2, 1, exp=(0, 1)), 1))

  class Other(env.m.data.DataGenerator):

    def __init__(self):
      super().__init__("other")
      self.tau, self.beta, self.gamma = (env.real("tau"), env.vec(
          env.reals("beta", 1)), env.vec(env.reals("gamma", 1)))

    def generate(self, n_samples):
      return expdata(env, unit_rows(env, "g", n_samples, 1), 1)

  q = unit_rows(env, "q", 1, 1)
  before = env.raises(scores, env, eta, q, 1)
  _, e = env.raises(eta.set_to_truth, Other())
  env.check("rejected", isinstance(e, ValueError))
  env.check("still", bool(env.truth(eta.has_enough_samples())) == fitted)
  same_outcome(env, "scores-kept", before, env.raises(scores, env, eta, q, 1))


@job("N11", quick=[dict(kind=k) for k in ALL], bounds="1 covariate too many")
def dimension_checked(env, kind):
  eta = build(env, kind, 1)
  good = expdata(env, unit_rows(env, "fit", 2, 1, exp=(0, 1)), 1)
  bad = expdata(env, unit_rows(env, "bad", 2, 2, exp=(0, 1)), 2)
  if kind != "LinearRegressionParameter":
    _, e = env.raises(eta.fit, bad)
    env.check("fit-rejected", isinstance(e, ValueError))
    env.check("still-unfit", not env.truth(eta.has_enough_samples()))
  eta.fit(good)
  _, e = env.raises(eta.calculate_score, bad)
  env.check("score-rejected", isinstance(e, ValueError))
