"""The paper's examples: arms, adjustment sets, seeds, random functions."""
import itertools
import math
import random
import re

from symx.run import job

TERM = re.compile(r"([ZV])_\{?(\d+)\}?")


def columns(v, d):
  return [(v, j) for j in range(d)]


def sources(env, z_dim, v_dim, small):
  """cpds giving, for each unit, numbers that tell which variable they are.

  small: the 1000-unit calibration sample has fixed numbers; batches of other
  sizes are arbitrary, except that Z0 and X are fixed (they are categorical).
  """
  cells = {}

  def make(v, d):
    def f(n, parents):
      del parents
      if n > 100:
        rows = [[float((k + j) % 3) for j in range(d)] for k in range(n)]
      elif v == "Z0":
        rows = [[float((k + j) % 2) for j in range(d)] for k in range(n)]
      else:
        t = len(cells.setdefault(v, []))
        rows = [[env.real(f"{v}.{j}.{t + k}") for j in range(d)]
                for k in range(n)]
      if n <= 100:
        cells.setdefault(v, []).extend(rows)
      return env.mat(rows, d)
    return f

  cpds = {"Z0": make("Z0", z_dim[0])}
  for i in range(1, len(z_dim)):
    cpds[f"Z{i}"] = make(f"Z{i}", z_dim[i])
    cpds[f"V{i}"] = make(f"V{i}", v_dim[i])

  def x(n, parents):
    del parents
    xs = [k % 2 for k in range(n)]
    if n <= 100:
      cells.setdefault("X", []).extend(xs)
    return env.vec(xs, integer=True)

  def y(n, parents):
    del parents
    t = len(cells.setdefault("Y", [])) if n <= 100 else 0
    ys = [float(t + k) for k in range(n)]
    if n <= 100:
      cells["Y"].extend(ys)
    return env.vec(ys)

  cpds["X"], cpds["Y"] = x, y
  return cpds, cells


def adjustment_set(arm):
  """{path: "Z" or "V"} as the arm's name tells."""
  terms = TERM.findall(arm.name)
  return {int(i): v for v, i in terms}, len(terms)


class Recorded:
  """Every estimator's fit is noted; the estimator still runs."""

  def __init__(self, env):
    self.calls = []
    self.undo = []
    p = env.m.parameters
    for cls in (p.AIPW, p.FrontDoorLinearFiniteZ):
      self.wrap(cls)

  def wrap(self, cls):
    old = cls.fit

    def fit(this, d, *a, **k):
      self.calls.append((this, d))
      return old(this, d, *a, **k)

    cls.fit = fit
    self.undo.append((cls, old))

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    for cls, old in self.undo:
      cls.fit = old


def build(env, z_dim, v_dim, latex, limit, units):
  costs = {k: env.real(k, gt=0) for k in ("z_cost", "v_cost", "z0_cost")}
  cpds, cells = sources(env, z_dim, v_dim, True)
  alg = env.choose("ci", ["FINITE_SAMPLE", "CLT"])
  out = env.m.paper_utils.generate_example_from_cpd(
      z_dim, v_dim, costs["z_cost"], costs["v_cost"], costs["z0_cost"],
      len(z_dim) - 1, cpds, limit, units, latex,
      getattr(env.m.arms.CIAlgorithm, alg))
  return out, costs, cells


SHAPES = [dict(z_dim=(1, 1), v_dim=(0, 1)), dict(z_dim=(2, 1), v_dim=(0, 2)),
          dict(z_dim=(1, 2, 1), v_dim=(0, 1, 2)),
          dict(z_dim=(2, 3, 3, 3), v_dim=(0, 2, 2, 2))]


@job("P01", quick=[dict(s, latex=l) for s in SHAPES for l in (False, True)],
     thorough=[dict(s, latex=l) for s in SHAPES + [
         dict(z_dim=(1, 1, 2, 1, 2), v_dim=(0, 2, 1, 3, 1))]
               for l in (False, True)],
     bounds="1 to 3 (thorough: 4) back-door paths, dimensions 1 to 3, batches "
            "of 8 units of any covariates, any costs")
def adjustment_sets(env, z_dim, v_dim, latex):
  """Each arm sees exactly the covariates its name tells, at their cost."""
  env.pin("glob")
  m = len(z_dim) - 1
  (gen, arms, *_), costs, cells = build(
      env, list(z_dim), list(v_dim), latex, 100, 8)
  env.check("number-of-arms", len(arms) == 2 ** m + 1)
  env.check("distinct-names", len({a.name for a in arms}) == len(arms))
  front = [a for a in arms if isinstance(
      a.eta, env.m.parameters.FrontDoorLinearFiniteZ)]
  env.check("one-front-door-arm", len(front) == 1)
  sets = set()
  for a in arms:
    if a is front[0]:
      want = columns("Z0", z_dim[0])
      cost = costs["z0_cost"]
    else:
      chosen, count = adjustment_set(a)
      env.check("one-per-path", count == m and sorted(chosen) == list(
          range(1, m + 1)))
      sets.add(tuple(sorted(chosen.items())))
      want = [c for i, v in sorted(chosen.items()) for c in columns(
          f"{v}{i}", (z_dim if v == "Z" else v_dim)[i])]
      cost = sum((costs["z_cost"] if v == "Z" else costs["v_cost"]
                  for v in chosen.values()), 0)
    env.check("cost", env.eq(a.cost, cost))
    sees(env, gen, a, want, cells)
  env.check("all-adjustment-sets", len(sets) == 2 ** m)


def sees(env, gen, arm, want, cells):
  """A batch reaches the estimator as exactly these columns."""
  t = len(cells.get("Y", []))
  batch = gen.generate(8)
  with Recorded(env) as rec:
    arm.update(batch, .05)
  data = [d for eta, d in rec.calls if eta is arm.eta]
  env.check("fits", len(data) >= 1 and len(data) == len(rec.calls))
  for d in data:
    rows, ids = env.rows(d.cov), [int(y) for y in env.cells(d.rsp)]
    env.check("units", len(rows) >= 1 and len(set(ids)) == len(ids) and all(
        t <= k < t + 8 for k in ids))
    env.check("treatment", env.eq(list(env.cells(d.exp)),
                                  [cells["X"][k] for k in ids]))
    env.check("width", all(len(r) == len(want) for r in rows))
    for v, j in want:
      col = [cells[v][k][j] for k in ids]
      env.check("column", env.or_(*[
          env.eq([r[c] for r in rows], col) for c in range(len(want))]))


@job("P01", quick=[dict(s, which=w) for s in SHAPES[:2] + SHAPES[2:3]
                   for w in range(3)],
     bounds="1 to 2 back-door paths, limits up to 30 samples, 2 to 4 units a "
            "round")
def bandits_as_asked(env, z_dim, v_dim, which):
  """The bandits play those arms, those many units a round, up to the limit."""
  env.pin("glob")
  units = env.choose("units", [2, 4])
  limit = env.choose("limit", [0, 7, 30])
  (gen, arms, *algos), _, _ = build(
      env, list(z_dim), list(v_dim), False, limit, units)
  env.check("three-algorithms", [type(b).__name__ for b in algos] == [
      "LUCBAlgorithm", "SuccessiveEliminationAlgorithm", "UniformAlgorithm"])
  b = algos[which]
  seen = []
  for a in arms:
    def update(d, delta, a=a, old=a.update):
      seen.append((a, len(d), delta))
      return old(d, delta)
    a.update = update
  out = b.run()
  total = [int(c) for c in out.cum_samples]
  env.check("same-arms", set(out.samples_by_arm) == set(arms) and
            {a for a, _, _ in seen} == set(arms))
  env.check("units-per-round", all(n == units for _, n, _ in seen))
  env.check("within-the-limit", all(t <= limit for t in total[:-1]))
  env.check("stops-after-the-limit", total[-1] > limit)
  env.check("confidence", env.and_(*[env.lt(0, d) for _, _, d in seen]))
  # over the run, the error probabilities spent on one batch stay within .05
  first = {}
  for a, _, d in seen:
    first.setdefault(a, d)
  env.check("error-probability", env.le(sum(first.values(), 0), env.const(
      .05 + 1e-9)))


@job("P04", quick=[dict(mod=m, n=n) for m in ("paper_utils", "nonlinear_utils")
                   for n in (1, 2, 3)],
     thorough=[dict(mod=m, n=n) for m in ("paper_utils", "nonlinear_utils")
               for n in (1, 2, 3, 4, 5)],
     bounds="vectors of 1 to 3 (thorough: 5) reals")
def softmax_is_a_distribution(env, mod, n):
  f = getattr(env.m, mod).softmax
  xs = env.reals("x", n)
  ps = list(env.cells(f(env.vec(xs))))
  env.check("length", len(ps) == n)
  env.check("positive", env.and_(*[env.lt(0, p) for p in ps]))
  env.check("sums-to-one", env.eq(sum(ps, 0), 1))
  for i, j in itertools.permutations(range(n), 2):
    env.check("keeps-order", env.implies(env.lt(xs[i], xs[j]),
                                         env.lt(ps[i], ps[j])))


@job("P04", quick=[dict(mod=m) for m in ("paper_utils", "nonlinear_utils")],
     bounds="matrices of 2 rows and 2 columns")
def softmax_by_column(env, mod):
  f = getattr(env.m, mod).softmax
  x = env.real_mat("x", 2, 2)
  ps = env.rows(f(x))
  for j in range(2):
    env.check("column-sums-to-one", env.eq(ps[0][j] + ps[1][j], 1))


@job("P04", quick=[dict(mod=m, offsets=o) for m in (
    "paper_utils", "nonlinear_utils") for o in ((0, 1), (2, 0, -1))],
     bounds="vectors x + (0, 1) and x + (2, 0, -1) for every real x")
def softmax_ratios(env, mod, offsets):
  """exp(x_i - x_j) to one, wherever the vector lies."""
  env.numeric()
  f = getattr(env.m, mod).softmax
  x = env.real("x")
  ps = list(env.cells(f(env.vec([x + o for o in offsets]))))
  for i, j in itertools.permutations(range(len(offsets)), 2):
    ratio = env.const(round(math.exp(offsets[i] - offsets[j]), 9))
    gap = ps[i] - ps[j] * ratio
    env.check("ratio", env.and_(env.lt(-1e-6, gap), env.lt(gap, 1e-6)))


def gp(env, dim, out_dim, **kw):
  k = len(env.trace)
  f = env.m.nonlinear_utils.generate_random_nd_function(dim, out_dim, **kw)
  ev = env.trace[k:]
  return f, [e for e in ev if e[0] == "fit"], [
      e for e in ev if e[0] == "sample_y"]


NDS = [dict(dim=1, out_dim=1, pts=3), dict(dim=2, out_dim=1, pts=2),
       dict(dim=1, out_dim=3, pts=2), dict(dim=2, out_dim=2, pts=2)]


@job("P03", quick=[dict(c, seeded=s) for c in NDS for s in (False, True)],
     thorough=[dict(c, seeded=s) for c in NDS + [
         dict(dim=3, out_dim=3, pts=3)] for s in (False, True)],
     bounds="inputs of 1 to 2 (thorough: 3) dimensions, 1 to 3 outputs, every "
            "pair of input rows and every sample of the prior")
def random_functions(env, dim, out_dim, pts, seeded):
  """(n, dim) to (n, out_dim), row by row, fitted to its own prior sample."""
  lo, hi = env.real("lo"), env.real("hi")
  env.assume(env.lt(lo, hi))
  seed = env.choose("seed", [0, 7]) if seeded else None
  f, fits, samples = gp(env, dim, out_dim, min_x=lo, max_x=hi, n_points=pts,
                        seed=seed, alpha=1.0)
  env.check("one-fit-per-output", len(fits) == out_dim)
  for e in fits:
    x, y = env.rows(e[3]), list(env.cells(e[4]))
    env.check("grid", len(x) == pts ** dim and len(y) == len(x) and all(
        len(r) == dim for r in x))
    env.check("within-range", env.and_(*[
        env.and_(env.le(lo, c), env.le(c, hi)) for r in x for c in r]))
    for r in itertools.product([lo, hi], repeat=dim):
      env.check("corners", env.or_(*[env.eq(q, list(r)) for q in x]))
  env.check("own-sample", sum(
      {e[1]: e[2] for e in samples}.values()) >= out_dim)
  xs = env.real_mat("x", 2, dim)
  out = f(xs)
  env.check("shape", tuple(out.shape) == (2, out_dim))
  rows = env.rows(out)
  for k in range(2):
    alone = env.rows(f(xs[k:k + 1]))
    env.check("row-by-row", len(alone) == 1 and env.eq(alone[0], rows[k]))


@job("P03", quick=[dict(c, how=h) for c in NDS for h in ("seed", "global")],
     bounds="inputs of 1 to 2 dimensions, 1 to 3 outputs, every input row")
def random_functions_reproducible(env, dim, out_dim, pts, how):
  """The same seed gives the same function."""
  seed = env.choose("seed", [0, 7])
  if how == "seed":
    kw = dict(n_points=pts, seed=seed)
    with env.same_draws("a"):
      f, _, _ = gp(env, dim, out_dim, **kw)
    with env.same_draws("b"):
      g, _, _ = gp(env, dim, out_dim, **kw)
  else:
    env.np.random.seed(seed)
    f, _, _ = gp(env, dim, out_dim, n_points=pts)
    env.np.random.seed(seed)
    g, _, _ = gp(env, dim, out_dim, n_points=pts)
  xs = env.real_mat("x", 2, dim)
  env.check("same", env.eq(env.rows(f(xs)), env.rows(g(xs))))


def parents_of(env, v, m, z_dim, v_dim, n):
  """Arbitrary parents, as the graph of the paper has them."""
  if v == "X":
    return [env.real_mat(f"pV{i}_", n, v_dim[i]) for i in range(1, m + 1)]
  if v == "Y":
    return [env.real_mat(f"pZ{i}_", n, z_dim[i]) for i in range(m + 1)]
  if v == "Z0":
    return [env.vec([env.choose(f"pX{k}", [0, 1]) for k in range(n)],
                    integer=True)]
  if v.startswith("Z"):
    return [env.real_mat(f"p{v}_", n, v_dim[int(v[1:])])]
  return []


SECTIONS = [dict(section=s, z_dim=z, v_dim=v) for s in (1, 2) for z, v in (
    ((1, 1), (0, 1)), ((2, 1, 2), (0, 1, 2)))]


@job("P02", quick=[dict(s, seed=k) for s in SECTIONS for k in (0, 5)],
     thorough=[dict(s, seed=k) for s in SECTIONS + [
         dict(section=s, z_dim=(2, 3, 3, 3), v_dim=(0, 2, 2, 2))
         for s in (1, 2)] for k in (0, 1, 2, 5)],
     bounds="1 to 2 (thorough: 3) back-door paths, seeds 0 and 5, two units "
            "with any parents, one sequence of draws of the seeded generator",
     timeout_ms=60000)
def instances_by_seed(env, section, z_dim, v_dim, seed):
  """The seed alone decides the instance."""
  env.pin(f"rng[{seed}]")
  env.numeric()
  z_dim, v_dim = list(z_dim), list(v_dim)
  m = len(z_dim) - 1
  make = getattr(env.m.paper_utils, f"get_section_5_{section}_cpds")
  with env.same_draws("a"):
    state = env.np.random.get_state()
    one = make(z_dim, v_dim, m, seed)
    env.check("global-generator-untouched",
              env.np.random.get_state() == state)
  with env.same_draws("b"):
    two = make(z_dim, v_dim, m, seed)
  names = {"X", "Y"} | {f"Z{i}" for i in range(m + 1)} | {
      f"V{i}" for i in range(1, m + 1)}
  env.check("variables", set(one) == names and set(two) == names)
  for v in sorted(names):
    n = 1 if v == "Z0" else 2
    ps = parents_of(env, v, m, z_dim, v_dim, n)
    with env.same_draws("q" + v):
      a = one[v](n, list(ps))
    with env.same_draws("q" + v):
      b = two[v](n, list(ps))
    env.check("same-" + v[0], env.eq(env.cells(a), env.cells(b)))
    want = {"X": (n,), "Y": (n,)}.get(v) or (
        n, (z_dim if v[0] == "Z" else v_dim)[int(v[1:])])
    env.check("shape-" + v[0], tuple(a.shape) == want)


class _Drawn:
  """Stands in for the random functions: fixed quadratics, told apart by seed."""

  def __init__(self, env):
    self.env, self.made = env, 0

  def __call__(self, dim, out_dim=1, *, seed=None, **kw):
    del kw
    self.made += 1
    env = self.env
    rng = random.Random(str(seed if seed is not None else f"n{self.made}"))
    co = [[[env.const(rng.randint(1, 999) / 1000) for _ in "ab"]
           for _ in range(dim)] for _ in range(out_dim)]

    def f(x):
      return env.mat([[sum((a * v + b * v * v for (a, b), v in zip(c, r)), 0)
                       for c in co] for r in env.rows(x)], out_dim)
    return f

  def __enter__(self):
    self.mods = [m for m in (self.env.m.nonlinear_utils, self.env.m.paper_utils)
                 if hasattr(m, "generate_random_nd_function")]
    self.old = self.mods[0].generate_random_nd_function
    for m in self.mods:
      m.generate_random_nd_function = self
    return self

  def __exit__(self, *exc):
    for m in self.mods:
      m.generate_random_nd_function = self.old


def law(env, f, n, ps):
  """(kind, location or log-odds per output cell, variances) of one call."""
  k = len(env.trace)
  out = env.cells(f(n, list(ps)))
  ev = [e for e in env.trace[k:] if e[0] in ("normal", "mvn", "binomial")]
  env.check("one-draw-per-unit", len(ev) == 1)
  if len(ev) != 1:
    env.cut("no single draw")
  e = ev[0]
  if e[0] == "binomial":
    env.check("one-draw-per-unit", len(e[2]) == n == len(out))
    env.check("returns-the-draw", env.eq(list(out), list(e[2])))
    env.check("bernoulli", env.eq([c[0] for c in e[1]], [1] * n))
    return "bernoulli", [-env.log(1 / p - 1) for _, p in e[1]], []
  if e[0] == "normal":
    env.check("one-draw-per-unit", len(e[2]) == len(out))
    loc = [o - s * d for o, (_, s), d in zip(out, e[1], e[2])]
    return "gaussian", loc, [s * s for _, s in e[1]]
  env.check("one-draw-per-unit", len(e[3]) == len(out))
  cov = [list(r) for r in e[2]]
  for i, r in enumerate(cov):
    for j, c in enumerate(r):
      if i != j:
        env.check("independent-noise", env.eq(c, 0))
  return "gaussian", [o - d for o, d in zip(out, e[4])], [
      r[i] for i, r in enumerate(cov)]


PATHS = [dict(section=s, z_dim=z, v_dim=v) for s in (1, 2) for z, v in (
    ((1, 1), (0, 1)), ((2, 1, 2), (0, 1, 2)), ((1, 1, 1), (0, 1, 1)))]
LARGER = PATHS + [dict(section=s, z_dim=(2, 3, 3, 3), v_dim=(0, 2, 2, 2))
                   for s in (1, 2)]


@job("P05", quick=[dict(s, seed=k) for s in PATHS for k in (0, 5)],
     thorough=[dict(s, seed=k) for s in LARGER for k in (0, 1, 2, 5)],
     bounds="1 to 2 (thorough: 3) back-door paths, any real parents of two units, "
            "one sequence of draws of the seeded generator (thorough: four)",
     timeout_ms=60000)
def declared_mechanisms(env, section, z_dim, v_dim, seed=0):
  """Linear (5.1) or additive (5.2) mechanisms, with the declared noise."""
  env.pin(f"rng[{seed}]")
  env.numeric()
  z_dim, v_dim = list(z_dim), list(v_dim)
  m = len(z_dim) - 1
  make = getattr(env.m.paper_utils, f"get_section_5_{section}_cpds")
  with _Drawn(env) as drawn:
    cpds = make(z_dim, v_dim, m, seed)
  dims = {"X": v_dim[1:], "Y": z_dim}
  for i in range(1, m + 1):
    dims[f"Z{i}"] = [v_dim[i]]
    dims[f"V{i}"] = []
  effects = {}
  for v, ds in sorted(dims.items()):
    width = {"X": 1, "Y": 1}.get(v) or (z_dim if v[0] == "Z" else v_dim)[
        int(v[1:])]

    def points(*rows, v=v, ds=ds):
      """One call with a unit per given row (a list of numbers per parent)."""
      kind, loc, var = law(env, cpds[v], len(rows), [
          env.mat([r[i] for r in rows], d) for i, d in enumerate(ds)])
      return kind, [loc[k:k + width] for k in range(0, len(loc), width)], var

    a, b = [[[env.real(f"{v}{t}{i}.{j}") for j in range(d)]
             for i, d in enumerate(ds)] for t in "ab"]
    zero = [[env.const(0)] * d for d in ds]
    kind, (la, lb, l0), var = points(a, b, zero)
    env.check("kind-" + v[0], (kind == "bernoulli") == (v == "X"))
    for s2 in var:
      want = 1 if v[0] == "V" else .1
      env.check("variance-" + v[0], env.and_(env.lt(want - 1e-9, s2),
                                             env.lt(s2, want + 1e-9)))
    if section == 1 or v[0] == "V":
      env.check("centred-" + v[0], env.eq(l0, [env.const(0)] * width))
    _, (again,), _ = points(b)
    env.check("row-by-row-" + v[0], env.eq(again, lb))
    if v[0] == "V":
      env.check("centred-V", env.eq(la, lb))
      continue
    for i in range(len(ds)):
      ab = [b[k] if k == i else a[k] for k in range(len(ds))]
      ba = [a[k] if k == i else b[k] for k in range(len(ds))]
      _, (lab, lba), _ = points(ab, ba)
      env.check("additive-" + v[0], env.eq(
          [p + q for p, q in zip(lab, lba)], [p + q for p, q in zip(la, lb)]))
    if section == 1:
      _, (ls,), _ = points([[p + q for p, q in zip(x, y)]
                            for x, y in zip(a, b)])
      env.check("linear-" + v[0], env.eq(
          ls, [p + q for p, q in zip(la, lb)]))
    if section == 2 and not drawn.made:
      continue
    for i, d in enumerate(ds):
      for j in range(d):
        e = [[env.const(1 if (k, t) == (i, j) else 0) for t in range(c)]
             for k, c in enumerate(ds)]
        _, (le,), _ = points(e)
        effects.setdefault(v[0], []).extend(
            p - q for p, q in zip(le, l0))
  for v, es in sorted(effects.items()):
    for i, e in enumerate(es):
      env.check("every-parent-counts-" + v, env.not_(env.eq(e, 0)))
      for f in es[:i]:
        env.check("own-coefficients-" + v, env.not_(env.eq(e, f)))


@job("P05", quick=[dict(z_dim=z, seed=k) for z in (1, 2) for k in (0, 5)],
     thorough=[dict(z_dim=z, seed=k) for z in (1, 2, 3) for k in range(8)],
     bounds="dimension of Z0 1 or 2 (thorough: 3), 2 seeds (thorough: 8), one "
            "sequence of draws of the seeded generator and of the categories, "
            "any response noise")
def effect_through_z0(env, z_dim, seed):
  """Z0 has one of ten values, and treatment does not lower the response."""
  env.pin(f"rng[{seed}]", "qc", "glob")
  env.numeric()
  units = 80
  cpds = env.m.paper_utils.get_section_5_1_cpds([z_dim, 1], [0, 1], 1, seed)
  mean, values = [], {}
  for x in (0, 1):
    k = len(env.trace)
    rows = env.rows(cpds["Z0"](units, [env.vec([x] * units, integer=True)]))
    ev = [e for e in env.trace[k:] if e[0] == "choice"]
    # the draw whose categories decide the values, told by the values returned
    drawn, fits = {}, []
    for e in ev:
      ps = [float(p) for p in e[2] or [1 / e[1]] * e[1]]
      drawn.setdefault(tuple(ps), []).extend(int(c) for c in e[3])
    for ps, cs in drawn.items():
      table = {}
      if len(cs) == units and all(
          table.setdefault(c, [float(t) for t in r]) == [float(t) for t in r]
          for c, r in zip(cs, rows)):
        fits.append((ps, table))
    env.check("value-by-category", len(fits) == 1)
    if len(fits) != 1:
      return
    (ps, table), = fits
    env.check("ten-values", len(ps) == 10 and len(table) == 10)
    values.setdefault(0, table)
    env.check("same-values", values[0] == table)
    env.check("distribution", min(ps) > 0 and abs(sum(ps) - 1) < 1e-9)
    m = []
    for j in range(z_dim):
      m.append(sum((env.const(p * table[c][j]) for c, p in enumerate(ps)), 0))
    mean.append(m)
  loc = []
  for m in mean:
    kind, (y,), _ = law(env, cpds["Y"], 1, [env.mat([m], z_dim),
                                            env.mat([[env.const(0)]], 1)])
    env.check("gaussian", kind == "gaussian")
    loc.append(y)
  env.check("effect-not-negative", env.le(loc[0] - 1e-9, loc[1]))
