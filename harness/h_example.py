"""The example models: declared moments are the true ones."""
from symx.run import job


def bernoulli(env, model, name, rows):
  """P(name = 1 | parents) for each row of parent values."""
  n = len(rows)
  k = len(env.events("binomial"))
  ps = [env.vec([r[j] for r in rows], integer=True)
        for j in range(len(rows[0]) if rows else 0)]
  out = model.cpds[name](n, ps)
  ev = env.events("binomial")[k:]
  env.check("one-draw-per-unit", len(ev) == 1 and len(ev[0][1]) == n)
  env.check("returns-draws", env.eq(list(env.cells(out)), list(ev[0][2])))
  for m, p in ev[0][1]:
    env.check("probability", env.and_(env.eq(m, 1), env.le(0, p), env.le(p, 1)))
  return [p for _, p in ev[0][1]]


def response(env, model, rows):
  """(mean, variance) of the response given each row of parents."""
  n = len(rows)
  k = len(env.events("normal"))
  out = model.cpds["Y"](n, [env.vec([r[j] for r in rows], integer=True)
                            for j in range(len(rows[0]))])
  ev = env.events("normal")[k:]
  env.check("one-noise-per-unit", sum(len(e[1]) for e in ev) == n)
  cells = [(m, s, x, o) for e in ev for (m, s), x, o in zip(
      e[1], e[2], e[3])]
  res = []
  for y, (m, s, _, o) in zip(env.cells(out), cells):
    # the draw o has mean m and variance s^2
    res.append((y - o + m, s * s))
  return res


def moments(dist):
  """Mean and variance of [(probability, mean, variance)]."""
  mu = sum((p * m for p, m, _ in dist), 0)
  return mu, sum((p * (v + m * m) for p, m, v in dist), 0) - mu * mu


def binary(env, label, d, name, p):
  env.check(label, env.eq(d["mu_" + name], p))
  env.check(label, env.eq(d["var_" + name], p * (1 - p)))


@job("E01", bounds="every draw of the coefficients", timeout_ms=60000)
def back_door(env):
  model, d = env.m.example_scm.back_door_scm()
  (pz,) = bernoulli_root(env, model, "Z")
  px = bernoulli(env, model, "X", [[0], [1]])
  rows = [[z, x] for z in (0, 1) for x in (0, 1)]
  ys = response(env, model, rows)
  env.check("noise-variance", env.and_(*[env.eq(v, 1) for _, v in ys]))
  w = [(pz if z else 1 - pz) * (px[z] if x else 1 - px[z]) for z, x in rows]
  mx = (1 - pz) * px[0] + pz * px[1]
  binary(env, "covariate", d, "z", pz)
  binary(env, "treatment", d, "x", mx)
  mu, var = moments([(p, m, v) for p, (m, v) in zip(w, ys)])
  env.check("response-mean", env.eq(d["mu_y"], mu))
  env.check("response-variance", env.eq(d["var_y"], var))
  y = {tuple(r): m for r, (m, _) in zip(rows, ys)}
  env.check("effect", env.eq(d["tau"], (1 - pz) * (y[0, 1] - y[0, 0]) + pz * (
      y[1, 1] - y[1, 0])))
  env.check("coefficients", env.and_(
      env.eq(d["beta"], y[1, 0] - y[0, 0]),
      env.eq(d["alpha"], px[1] - px[0])))


def bernoulli_root(env, model, name):
  k = len(env.events("binomial"))
  out = model.cpds[name](1, [])
  ev = env.events("binomial")[k:]
  env.check("one-draw-per-unit", len(ev) == 1 and len(ev[0][1]) == 1)
  env.check("returns-draws", env.eq(list(env.cells(out)), list(ev[0][2])))
  m, p = ev[0][1][0]
  env.check("probability", env.and_(env.eq(m, 1), env.le(0, p), env.le(p, 1)))
  return [p]


@job("E01", bounds="every draw of the coefficients", timeout_ms=60000)
def front_door(env):
  model, d = env.m.example_scm.frontdoor_scm()
  (pu,) = bernoulli_root(env, model, "U")
  px = bernoulli(env, model, "X", [[0], [1]])
  pz = bernoulli(env, model, "Z", [[0], [1]])
  rows = [[z, u] for z in (0, 1) for u in (0, 1)]
  ys = response(env, model, rows)
  env.check("noise-variance", env.and_(*[env.eq(v, 1) for _, v in ys]))
  mx = (1 - pu) * px[0] + pu * px[1]
  binary(env, "confounder", d, "u", pu)
  binary(env, "treatment", d, "x", mx)
  mz = mx * pz[1] + (1 - mx) * pz[0]
  binary(env, "mediator", d, "z", mz)
  w = []
  for z, u in rows:
    p = px[u] * pz[1] + (1 - px[u]) * pz[0]
    w.append((pu if u else 1 - pu) * (p if z else 1 - p))
  mu, var = moments([(p, m, v) for p, (m, v) in zip(w, ys)])
  env.check("response-mean", env.eq(d["mu_y"], mu))
  env.check("response-variance", env.eq(d["var_y"], var))
  y = {tuple(r): m for r, (m, _) in zip(rows, ys)}
  eff = 0
  for u in (0, 1):
    q = pu if u else 1 - pu
    eff = eff + q * (pz[1] - pz[0]) * (y[1, u] - y[0, u])
  env.check("effect", env.eq(d["tau"], eff))
  env.check("coefficients", env.and_(
      env.eq(d["gamma"], y[1, 0] - y[0, 0]),
      env.eq(d["alpha_2"], y[0, 1] - y[0, 0])))


@job("E01", quick=[dict(kind=k, n=n) for k in ("back_door", "frontdoor")
                   for n in (1, 3)], bounds="n in {1, 3}")
def example_shape(env, kind, n):
  """Treatment, response and covariates sit where they are declared."""
  model, _ = getattr(env.m.example_scm, kind + "_scm")()
  seen = {}
  for v in list(model.cpds):
    def wrap(m, ps, v=v, f=model.cpds[v]):
      seen[v] = f(m, ps)
      return seen[v]
    model.cpds[v] = wrap
  out = model.generate(n)
  covs = ["Z"] if kind == "back_door" else ["U", "Z"]
  env.check("columns", env.eq(
      [[r[j] for r in env.rows(out.cov)] for j in range(len(covs))],
      [list(env.cells(seen[c])) for c in covs]))
  env.check("treatment", env.eq(list(env.cells(out.exp)),
                                list(env.cells(seen["X"]))))
  env.check("response", env.eq(list(env.cells(out.rsp)),
                               list(env.cells(seen["Y"]))))
