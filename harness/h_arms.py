"""The variance estimator arms, over arbitrary nuisance models."""
from symx.run import job

INF = float("inf")


class Eta:
  """A nuisance parameter whose every answer is arbitrary.

  Scores are an arbitrary function of the unit and of which fit is in force.
  """

  def __init__(self, env, tag, enough=None, width="real", shared=None,
               least=0):
    # least: a fit to fewer treated or control units changes nothing
    self.env, self.tag, self.least = env, tag, least
    self.enough, self.width = enough, width
    self.plain, self.free, self.broken = False, (), False
    self.calls = []
    self.seen = []
    self.fits = 0
    self.in_force = None
    self.recent_data = None
    self.names = {} if shared is None else shared

  def fit(self, d):
    if self.broken:
      raise RuntimeError("the model fails")
    self.calls.append(("fit", uids(self.env, d)))
    key = tuple(sorted(uids(self.env, d)))
    self.recent_data = d
    treated = sum(i % 2 for i in key)
    if min(treated, len(key) - treated) < self.least:
      return
    self.in_force = self.names.setdefault(key, len(self.names))
    self.fits += 1

  def has_enough_samples(self):
    if self.enough is None:
      return self.fits > 0
    return self.enough[min(self.count(), len(self.enough)) - 1]

  def count(self):
    return sum(1 for c in self.calls if c[0] == "fit")

  def score(self, fit, row):
    if self.plain and row[0] not in self.free:
      # given scores: the unit's number and the fit
      return self.env.const(row[0] % 7 + (row[0] + 3 * fit) % 5 / 4)
    return self.env.fn(f"score.{fit}", row)

  def calculate_score(self, d):
    env = self.env
    self.calls.append(("score", self.in_force, uids(env, d)))
    self.seen += urows(env, d)
    return env.farray([self.score(self.in_force, r) for r in urows(env, d)],
                      (d.n_units,))

  def calculate_cs_width(self, delta, sub_g, rho):
    self.calls.append(("width", delta, sub_g, rho))
    if self.width == "zero":
      return self.env.const(0)
    return self.env.fn("width", [delta, len(self.recent_data)], lo=0)

  def reset(self):
    self.calls.append(("reset",))
    self.fits = 0
    self.in_force = None
    self.recent_data = None


def urows(env, d):
  return [[int(c[0]), x, y] for c, x, y in zip(
      env.rows(d.cov), env.cells(d.exp), env.cells(d.rsp))]


def uids(env, d):
  return [int(r[0]) for r in env.rows(d.cov)]


def batch(env, start, n, name="u"):
  """Units numbered from start; responses arbitrary; a junk covariate."""
  return env.m.data.ExpData(
      env.mat([[float(start + i), 0.5] for i in range(n)], 2),
      env.vec([i % 2 for i in range(n)], integer=True),
      env.vec([env.real(f"{name}.y{start + i}") for i in range(n)]))


def drop_junk(env):
  return env.m.data.get_remove_coordinates_fn([1])


def make(env, eta, algo="CLT", **kw):
  if algo == "FINITE_SAMPLE":
    kw = dict(dict(burn_in=2, tau_bound=1, sub_gscale=1), **kw)
  return env.m.arms.SampleSplittingArm(
      "arm", eta, drop_junk(env),
      ci_algorithm=getattr(env.m.arms.CIAlgorithm, algo), **kw)


def feed(env, arm, sizes, deltas, offset=0):
  """Updates with the given batch sizes; returns the intervals."""
  out, start = [], offset
  for n, d in zip(sizes, deltas):
    out.append(arm.update(batch(env, start, n), d))
    start += n
  return out


def mean(xs):
  t = xs[0]
  for x in xs[1:]:
    t = t + x
  return t / len(xs)


def delta(env, name="delta", hi=1):
  return env.real(name, gt=0, lt=hi)


def last(eta, kind):
  return [c for c in eta.calls if c[0] == kind][-1]


SIZES = [(2,), (3,), (4,), (2, 2), (3, 2), (2, 2, 2)]


def split_jobs(cls=("split",)):
  return [dict(sizes=s, stable=st, boot=b) for b in cls for s in SIZES
          for st in (True, False)]


def any_arm(env, eta, boot, stable, n_bootstraps=2):
  if boot == "split":
    return make(env, eta, stable_splits=stable)
  return env.m.arms.BootstrapArm("arm", eta, drop_junk(env),
                                 n_bootstraps=n_bootstraps,
                                 stable_splits=stable)


LONG = [dict(sizes=s, stable=st, boot=b, few=True)
        for s in [(2,) * 5, (9, 8), (4, 1, 3, 2)] for st in (True, False)
        for b in ("split",)]
MANY = (2, 3, 1, 2, 2, 4, 2, 1, 3, 2, 2, 2, 0, 2, 2, 3)
LONG += [dict(sizes=MANY, stable=st, boot="split", few="one")
         for st in (True, False)]
FREE = (9,)
MANY_BOUNDS = ("; 16 updates of up to 4 units with given shuffles and given "
               "scores (any for one unit where the interval is not read), the "
               "interval's parameters given but for the last delta")


def deltas(env, d, sizes, few):
  """Any error in every update; with many updates only in the last."""
  if few == "one":
    return [env.const(0.25)] * (len(sizes) - 1) + [d]
  return [d] * len(sizes)


@job("A01", quick=split_jobs() + [
    dict(sizes=s, stable=st, boot="boot") for s in [(2,), (3,), (2, 2)]
    for st in (True, False)] + LONG,
     thorough=[dict(sizes=(5,), stable=True, boot="split"),
               dict(sizes=(3, 3), stable=True, boot="split"),
               dict(sizes=(3, 3), stable=False, boot="split"),
               dict(sizes=(4, 3), stable=True, boot="split")],
     bounds="up to 3 updates of up to 4 units, every split of every batch; up "
     "to 5 updates or 17 units with shuffles that keep, reverse or rotate" + MANY_BOUNDS)
def sample_splitting(env, sizes, stable, boot, few=False):
  env.few_orders = few
  eta = Eta(env, "eta")
  eta.plain = few
  arm = any_arm(env, eta, boot, stable)
  start, before = 0, (set(), set())
  for n in sizes:
    mark = len(eta.calls)
    arm.update(batch(env, start, n), env.const(0.25))
    start += n
    calls = eta.calls[mark:]
    fits = [set(c[1]) for c in calls if c[0] == "fit"]
    scored = [c for c in calls if c[0] == "score"]
    env.check("fits", len(fits) >= 1 and len(scored) >= 1)
    fold = set().union(*fits)
    judged = set(scored[-1][2])
    # no unit is scored by a model that was fit to it
    names = {v: set(k) for k, v in eta.names.items()}
    for _, f, ids in scored:
      env.check("never-judged-by-itself", not names[f] & set(ids))
      env.check("once", len(ids) == len(set(ids)))
    env.check("apart", not fold & judged)
    env.check("balanced", abs(len(fold) - len(judged)) <= len(sizes) and
              (len(sizes) > 1 or abs(len(fold) - len(judged)) <= 1))
    if stable:
      env.check("stable", before[0] <= fold and before[1] <= judged)
    env.check("all-data", fold | judged == set(range(start)))
    before = (fold, judged)


@job("A01", quick=[dict(sizes=s, stable=st, boot="split", few=f)
                   for s, f in [((4, 1), False), ((5, 1), True),
                                ((5, 2, 1), True), ((5, 4, 3, 4), True)]
                   for st in (True, False)] + [
                       dict(sizes=(4,), stable=True, boot="boot"),
                       dict(sizes=(5, 1), stable=False, boot="boot", few=True)],
     thorough=[dict(sizes=(5, 2), stable=False, boot="split"),
               dict(sizes=(5,), stable=True, boot="boot")],
     bounds="up to 5 units over 2 updates (7 thorough), up to 16 over 4 with "
     "shuffles that keep, reverse or rotate; a model that needs a treated and a "
     "control unit and otherwise stays as it is")
def outdated_model(env, sizes, stable, boot, few=False):
  env.few_orders = few
  eta = Eta(env, "eta", least=1)
  eta.plain = few
  arm = any_arm(env, eta, boot, stable, 1 if few else 2)
  start = 0
  for n in sizes:
    mark = len(eta.calls)
    arm.update(batch(env, start, n), env.const(0.25))
    start += n
    names = {v: set(k) for k, v in eta.names.items()}
    for c in eta.calls[mark:]:
      if c[0] == "score":
        env.check("scored-when-fit", c[1] is not None)
        env.check("never-judged-by-itself", not names[c[1]] & set(c[2]))
    if not any(c[0] == "score" for c in eta.calls[mark:]):
      env.check("vacuous", env.and_(env.eq(arm.ci[0], 0),
                                    env.isposinf(arm.ci[1])))


@job("A05", quick=[dict(sizes=s, stable=st, boot=b) for b in ("split", "boot")
                   for s in [(2,), (3, 2), (2, 2, 2), (1, 0, 3)]
                   for st in (True, False) if b == "split" or sum(s) < 6] +
     LONG,
     thorough=[dict(sizes=(4, 3), stable=st, boot="split")
               for st in (True, False)],
     bounds="up to 3 updates of up to 3 units (7 units thorough); up to 5 "
     "updates or 17 units with shuffles that keep, reverse or rotate" + MANY_BOUNDS)
def data_accumulates(env, sizes, stable, boot, few=False):
  env.few_orders = few
  # never enough data: nothing else happens, the data must still pile up
  eta = Eta(env, "eta", enough=[False])
  arm = any_arm(env, eta, boot, stable)
  env.check("empty", arm.get_num_units() == 0 and arm.num_pulled == 0)
  start = 0
  for t, n in enumerate(sizes):
    b = batch(env, start, n)
    keep = urows(env, b)
    arm.update(b, env.const(0.25))
    start += n
    env.check("units", arm.get_num_units() == start)
    env.check("pulls", arm.num_pulled == t + 1)
    env.check("caller-data-kept", env.eq(urows(env, b), keep))
  env.check("fitted-known", set(last(eta, "fit")[1]) <= set(range(start)))


@job("A04", quick=[dict(sizes=s, algo=a) for a in (
    "CLT", "CHI2", "FINITE_SAMPLE") for s in [(4,), (5,), (3, 2)]] +
     [dict(sizes=(2, 2, 2), algo="CLT")] +
     [dict(sizes=s, algo=a, few=True) for s, a in [
         ((13,), "CLT"), ((13,), "CHI2"), ((5, 4, 5), "CHI2"),
         ((13,), "FINITE_SAMPLE"), ((4, 5), "FINITE_SAMPLE")]] +
     [dict(sizes=MANY, algo=a, few="one") for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")],
     thorough=[dict(sizes=(6,), algo=a) for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")] + [dict(sizes=(4, 4), algo="CLT")],
     bounds="up to 6 units (8 thorough) over up to 3 updates, up to 14 units "
     "with shuffles that keep, reverse or rotate; scores any "
     "function of unit and fit" + MANY_BOUNDS, timeout_ms=60000)
def estimates(env, sizes, algo, few=False):
  env.few_orders = few
  eta = Eta(env, "eta")
  if few == "one":
    eta.plain, eta.free = True, FREE
  arm = make(env, eta, algo)
  env.check("none-yet", arm.ate is None and arm.var_est is None)
  start = 0
  rows = {}
  for n in sizes:
    b = batch(env, start, n)
    start += n
    for r in urows(env, b):
      rows[r[0]] = r
    arm.update(b, env.const(0.25))
    fold = set(last(eta, "fit")[1])
    judged = [i for i in range(start) if i not in fold]
    f = eta.names[tuple(sorted(fold))]
    s = [eta.score(f, rows[i]) for i in judged]
    m = mean(s)
    env.check("ate", env.eq(arm.ate, m))
    env.check("variance", env.eq(arm.var_est, mean([(x - m) * (x - m)
                                                    for x in s])))
    env.observe("ate", arm.ate)


@job("A02", quick=[dict(sizes=s, algo=a) for a in (
    "CLT", "CHI2", "FINITE_SAMPLE") for s in [(2,), (3,), (4,), (5,), (3, 2)]] +
     [dict(sizes=(2, 2, 2), algo="CLT")] +
     [dict(sizes=s, algo=a, few=True) for s, a in [
         ((13,), "CLT"), ((13,), "CHI2"), ((5, 4, 5), "CHI2"),
         ((13,), "FINITE_SAMPLE"), ((4, 5), "FINITE_SAMPLE")]] +
     [dict(sizes=MANY, algo=a, few="one") for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")],
     thorough=[dict(sizes=(6,), algo=a) for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")],
     bounds="up to 6 units over up to 3 updates, up to 14 units with shuffles "
     "that keep, reverse or rotate; delta any value in (0,1), "
     "below 0.6 for the chi-squared interval; sub-Gaussian scale, tau bound "
     "and burn-in any positive values" + MANY_BOUNDS, timeout_ms=60000)
def interval_around_estimate(env, sizes, algo, few=False):
  env.few_orders = few
  eta = Eta(env, "eta")
  if few == "one":
    eta.plain = True
  kw = {}
  if algo == "FINITE_SAMPLE":
    kw = dict(tau_bound=env.real("tau_bound", gt=0),
              sub_gscale=env.real("sub_g", gt=0), burn_in=env.real("m", gt=1))
  if few == "one":
    kw = {k: env.const(2) for k in kw}
  arm = make(env, eta, algo, **kw)
  d = delta(env, hi=env.const(0.6) if algo == "CHI2" else 1)
  for (lo, hi) in feed(env, arm, sizes, deltas(env, d, sizes, few)):
    pass
  env.check("no-nan", env.not_(env.or_(env.isnan(lo), env.isnan(hi))))
  env.check("nonnegative", env.le(0, lo))
  env.check("below", env.le(lo, arm.var_est))
  env.check("above", env.le(arm.var_est, hi))
  env.check("same", env.and_(env.eq(arm.ci[0], lo), env.eq(arm.ci[1], hi)))


@job("A02", quick=[dict(sizes=s) for s in [(4,), (2, 2)]],
     bounds="burn-in longer than the scored fold, 4 units",)
def burn_in(env, sizes):
  eta = Eta(env, "eta")
  m = env.real("m", gt=2)
  arm = make(env, eta, "FINITE_SAMPLE", burn_in=m)
  out = feed(env, arm, sizes, [delta(env)] * len(sizes))
  env.check("vacuous", env.and_(env.eq(out[-1][0], 0),
                                env.isposinf(out[-1][1])))
  env.check("recorded", env.and_(env.eq(arm.ci[0], 0),
                                 env.isposinf(arm.ci[1])))


@job("A03", quick=[dict(sizes=s, algo=a) for a in (
    "CLT", "CHI2", "FINITE_SAMPLE") for s in [(4,), (2, 2)]] +
     [dict(sizes=(13,), algo=a, few=True) for a in ("CLT", "CHI2")],
     thorough=[dict(sizes=(5,), algo=a) for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")],
     bounds="4 units (5 thorough) over up to 2 updates, 13 units with shuffles "
     "that keep, reverse or rotate; any two deltas",
     timeout_ms=60000,
     assumes=("the nuisance width does not shrink when its delta does",))
def less_error_means_wider(env, sizes, algo, few=False):
  env.few_orders = few
  d1, d2 = delta(env, "d1"), delta(env, "d2")
  env.assume(env.lt(d1, d2))
  shared = {}
  runs = []
  for i, d in enumerate((d1, d2)):
    eta = Eta(env, "eta", shared=shared)
    arm = make(env, eta, algo)
    start = 0
    with env.same_draws():
      for n in sizes:
        arm.update(SAME(env, start, n), d)
        start += n
    runs.append((arm, eta))
  (a, ea), (b, eb) = runs
  wa = [c for c in ea.calls if c[0] == "width"]
  wb = [c for c in eb.calls if c[0] == "width"]
  env.check("same-width-calls", len(wa) == len(wb))
  for c, e in zip(wa, wb):
    env.check("nuisance-gets-less", env.and_(
        env.lt(c[1], e[1]), env.lt(0, c[1]), env.lt(c[1], d1)))
    n = len(ea.recent_data)
    env.assume(env.le(env.fn("width", [e[1], n], lo=0),
                      env.fn("width", [c[1], n], lo=0)))
  env.check("estimate", env.eq(a.var_est, b.var_est))
  env.check("lower", env.le(a.ci[0], b.ci[0]))
  env.check("upper", env.le(b.ci[1], a.ci[1]))


def SAME(env, start, n):
  """A batch that is the same each time it is asked for."""
  return env.m.data.ExpData(
      env.mat([[float(start + i), 0.5] for i in range(n)], 2),
      env.vec([i % 2 for i in range(n)], integer=True),
      env.vec([env.fn("y", [start + i]) for i in range(n)]))


@job("A06", quick=[dict(boot=b, stable=st) for b in ("split", "boot")
                   for st in (True, False)],
     bounds="any delta; the arm fresh or pulled once")
def bad_delta_rejected(env, boot, stable):
  eta = Eta(env, "eta")
  arm = any_arm(env, eta, boot, stable)
  if env.choose("pulled", (False, True)):
    arm.update(batch(env, 0, 2), env.const(0.25))
  state = (arm.ci, arm.ate, arm.var_est, arm.num_pulled, arm.get_num_units(),
           len(eta.calls))
  d = env.real("delta")
  env.assume(env.or_(env.le(d, 0), env.le(1, d)))
  _, e = env.raises(arm.update, batch(env, 2, 2), d)
  env.check("rejected", isinstance(e, ValueError))
  now = (arm.ci, arm.ate, arm.var_est, arm.num_pulled, arm.get_num_units(),
         len(eta.calls))
  for a, b in zip(state, now):
    env.check("unchanged", (a is None and b is None) or
              (a is not None and b is not None and env.eq(a, b)))


@job("A06", quick=[dict(sizes=s, boot=b, algo=a) for s in [(2,), (2, 2)]
                   for b, a in [("split", "CLT"), ("split", "CHI2"),
                                ("split", "FINITE_SAMPLE"), ("boot", None)]],
     bounds="up to 2 updates, any valid delta")
def not_enough_data(env, sizes, boot, algo):
  eta = Eta(env, "eta", enough=[False])
  arm = (make(env, eta, algo) if boot == "split" else
         any_arm(env, eta, boot, True))
  out = feed(env, arm, sizes, [delta(env)] * len(sizes))
  for lo, hi in out:
    env.check("vacuous", env.and_(env.eq(lo, 0), env.isposinf(hi)))
  env.check("ci", env.and_(env.eq(arm.ci[0], 0), env.isposinf(arm.ci[1])))
  env.check("ate", env.isnan(arm.ate))
  env.check("variance", env.isposinf(arm.var_est))
  env.check("nothing-scored", not [c for c in eta.calls if c[0] == "score"])


@job("A06", quick=[dict(sizes=s, kind=k, stable=st) for s in [
    (1,), (0,), (1, 1), (1, 1, 1), (1, 2)] for st in (True, False)
                   for k in ("CLT", "CHI2", "FINITE_SAMPLE", "boot")],
     bounds="up to 3 updates of 0 to 2 units, any valid delta; a model that is "
     "ready at once")
def nothing_held_out(env, sizes, kind, stable):
  eta = Eta(env, "eta")
  arm = (any_arm(env, eta, "boot", stable) if kind == "boot" else
         make(env, eta, kind, stable_splits=stable))
  d = delta(env, hi=env.const(0.6) if kind == "CHI2" else 1)
  start = 0
  for n in sizes:
    scored = len(eta.seen)
    out, e = env.raises(arm.update, batch(env, start, n), d)
    env.check("accepted", e is None)
    if e is not None:
      return
    start += n
    lo, hi = out
    held = start - len(last(eta, "fit")[1])
    if held and kind != "boot":
      env.check("scored", len(eta.seen) > scored)
      continue
    if not held:
      env.check("nothing-scored", len(eta.seen) == scored)
      env.check("vacuous", env.and_(env.eq(lo, 0), env.isposinf(hi)))
      env.check("ate", env.isnan(arm.ate))
      env.check("variance", env.isposinf(arm.var_est))
    env.check("ci", env.and_(env.eq(arm.ci[0], lo), env.eq(arm.ci[1], hi)))
    env.check("no-nan", env.not_(env.or_(env.isnan(lo), env.isnan(hi))))


@job("A06", quick=[dict(sizes=s) for s in [(4,), (2, 2)]],
     bounds="up to 2 updates; any scale, tau bound and burn-in of which at "
     "least one is invalid")
def bad_scales_rejected(env, sizes):
  tau, g, m = env.real("tau_bound"), env.real("sub_g"), env.real("burn_in")
  env.assume(env.or_(env.le(tau, 0), env.le(g, 0), env.le(m, 1)))
  arm, e = env.raises(make, env, Eta(env, "eta"), "FINITE_SAMPLE",
                      tau_bound=tau, sub_gscale=g, burn_in=m)
  if e is None:
    _, e = env.raises(feed, env, arm, sizes, [delta(env)] * len(sizes))
  env.check("rejected", isinstance(e, ValueError))


PASTS = ("none", "two", "lost", "lost-later", "unready", "rejected", "broken")


@job("A07", quick=[dict(boot="split", stable=st, n=2) for st in (True, False)] +
     [dict(boot="boot", stable=True, n=1)] +
     [dict(boot="split", stable=True, n=1, past=p) for p in PASTS] +
     [dict(boot="boot", stable=True, n=1, past=p) for p in PASTS
      if p not in ("two", "lost-later")],
     thorough=[dict(boot="boot", stable=st, n=2) for st in (True, False)],
     bounds="no, one or two updates of 2 units, updates that fail in the "
     "selector or the model, that are rejected or too small, a reset, two "
     "updates of 2 units (one for the bootstrap in the quick tier)")
def reset_is_fresh(env, boot, stable, n, past="one"):
  d = delta(env)
  eta, eta2 = Eta(env, "eta"), Eta(env, "eta")
  eta2.names = eta.names
  arm, new = any_arm(env, eta, boot, stable), any_arm(env, eta2, boot, stable)

  def same_state(label):
    for f in ("ate", "var_est", "num_pulled"):
      a, b = getattr(arm, f), getattr(new, f)
      env.check(label + "." + f, (a is None and b is None) or (
          a is not None and b is not None and env.eq(a, b)))
    env.check(label + ".units", arm.get_num_units() == new.get_num_units())
    env.check(label + ".ci", all(
        (a is None) == (b is None) for a, b in zip(arm.ci, new.ci)) and
              env.eq(list(arm.ci), list(new.ci)))
    env.check(label + ".name", arm.name == new.name and arm.cost == new.cost)

  eta.enough = [False] if past == "unready" else None
  if past in ("one", "two", "lost-later", "unready"):
    arm.update(SAME(env, 50, 2), d)
  if past == "two":
    arm.update(SAME(env, 52, 2), d)
  if past.startswith("lost"):  # fails in the caller's selector
    for _ in range(2):
      _, e = env.raises(arm.update, None, d)
      env.check("fails", e is not None)
  if past == "rejected":
    _, e = env.raises(arm.update, SAME(env, 50, 2), env.const(2))
    env.check("rejects", isinstance(e, ValueError))
  if past == "broken":  # fails in the model
    eta.broken = True
    _, e = env.raises(arm.update, SAME(env, 50, 2), d)
    env.check("fails", isinstance(e, RuntimeError))
    eta.broken = False
  eta.enough = None
  arm.reset()
  env.check("model-reset", eta.calls[-1][0] == "reset")
  same_state("reset")
  for t in range(n):
    for x in (arm, new):
      with env.same_draws(t):
        x.update(SAME(env, 2 * t, 2), d)
    if boot == "boot" and env.truth(env.isnan(new.ci[0])):
      return
    same_state(f"update{t}")


@job("A07", quick=[{}], bounds="the base class")
def base_arm(env):
  eta = Eta(env, "eta")
  arm = env.m.arms.VarianceEstimatorArm("a", eta, lambda d: d, cost=3)
  env.check("start", arm.name == "a" and arm.cost == 3 and arm.eta is eta and
            arm.num_pulled == 0 and arm.get_num_units() == 0)
  out, e = env.raises(arm.update, batch(env, 0, 2), env.const(0.25))
  env.check("update", e is None)
  if e is not None:
    return
  env.check("vacuous", env.and_(env.eq(out[0], 0), env.isposinf(out[1])))
  env.check("pulled", arm.num_pulled == 1)
  arm.reset()
  env.check("reset", arm.num_pulled == 0 and eta.calls == [("reset",)])


@job("A08", quick=[dict(n=n, b=b) for n, b in [(4, 1), (4, 2), (2, 2)]] +
     [dict(n=4, b=1, least=1), dict(n=5, b=1, least=1)],
     thorough=[dict(n=4, b=3), dict(n=6, b=2)],
     bounds="up to 4 units (6 thorough), 2 bootstraps (3 thorough), any delta; "
     "a model that always fits or needs a treated and a control unit",
     timeout_ms=60000)
def bootstrap_interval(env, n, b, least=0):
  eta = Eta(env, "eta", least=least)
  arm = any_arm(env, eta, "boot", True, b)
  d = delta(env)
  bt = batch(env, 0, n)
  rows = {r[0]: r for r in urows(env, bt)}
  lo, hi = arm.update(bt, d)
  first = [set(c[1]) for c in eta.calls if c[0] == "fit"][0]
  judged = [i for i in range(n) if i not in first]
  if tuple(sorted(first)) not in eta.names:
    env.check("not-enough", env.and_(env.eq(lo, 0), env.isposinf(hi)))
    return
  f = eta.names[tuple(sorted(first))]
  s = [eta.score(f, rows[i]) for i in judged]
  env.check("ate", env.eq(arm.ate, mean(s)))
  m = mean(s)
  env.check("variance", env.eq(arm.var_est,
                               mean([(x - m) * (x - m) for x in s])))
  # the interval: order statistics of the held-out variances
  boots = [c for c in eta.calls if c[0] == "score" and set(c[2]) <= first]
  boots = [c for c in boots if c[2]]
  if len(boots) < b:
    # a resample was too small to fit or to score: nothing is known
    env.check("vacuous", env.and_(env.eq(lo, 0), env.isposinf(hi)))
    return
  vs = []
  for c in boots[:b]:
    q = [eta.score(c[1], rows[i]) for i in c[2]]
    qm = mean(q)
    vs.append(mean([(x - qm) * (x - qm) for x in q]))
  env.check("low-is-one", env.or_(*[env.eq(lo, v) for v in vs]))
  env.check("high-is-one", env.or_(*[env.eq(hi, v) for v in vs]))
  env.check("ordered", env.le(lo, hi))
  below = sum(env.ite(env.lt(v, lo), 1, 0) for v in vs)
  above = sum(env.ite(env.lt(hi, v), 1, 0) for v in vs)
  env.check("low-rank", env.le(below, d * b / 2))
  env.check("high-rank", env.le(above, d * b / 2))


@job("A08", quick=[dict(), dict(earlier=True)],
     bounds="2 units, delta 1/2 or more, the default number of resamples; 4 units "
     "after an update with a larger delta, one shuffle and resampling")
def default_resamples(env, earlier=False):
  eta = Eta(env, "eta")
  arm = any_arm(env, eta, "boot", True, 0)
  # resampling is not the subject: the halves are as the generator likes
  if earlier:
    env.fixed_masks, env.few_orders = 1, "one"
    arm.update(batch(env, 0, 4), env.const(0.9))
    k, d, b = 6, 0.75, batch(env, 1, 0)
  else:
    (k, d), b = env.choose("delta", ((8, 0.5), (5, 0.9))), batch(env, 0, 2)
  seen = len(eta.calls)
  arm.update(b, env.const(d))
  calls = eta.calls[seen:]
  first = set([c for c in calls if c[0] == "fit"][0][1])
  boots = [c for c in calls if c[0] == "score" and c[2] and (
      set(c[2]) <= first)]
  env.check("number", len(boots) == k or len(boots) < k and env.and_(
      env.eq(arm.ci[0], 0), env.isposinf(arm.ci[1])))


@job("A09", quick=[dict(sizes=s, algo=a) for a in ("CLT", "CHI2",
                                                   "FINITE_SAMPLE")
                   for s in [(4,), (5,), (2, 2)]] +
     [dict(sizes=(2,), algo=a) for a in ("CLT", "CHI2")] +
     [dict(sizes=(2, 2, 2), algo="CLT"), dict(sizes=(4, 3), algo="CLT"),
      dict(sizes=(7,), algo="CLT"), dict(sizes=(3, 2), algo="CHI2"),
      dict(sizes=(7,), algo="CHI2"),
      dict(sizes=(3, 3), algo="FINITE_SAMPLE"),
      dict(sizes=(6,), algo="FINITE_SAMPLE"),
      dict(sizes=(4, 4), algo="FINITE_SAMPLE")] +
     [dict(sizes=s, algo=a, few=True) for s, a in [
         ((13,), "CLT"), ((13,), "CHI2"), ((5, 4, 5), "CHI2"),
         ((4, 1, 1, 1), "CLT"), ((9,), "FINITE_SAMPLE"),
         ((4, 5), "FINITE_SAMPLE")]] +
     [dict(sizes=MANY, algo=a, few="one") for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")],
     thorough=[dict(sizes=(6,), algo=a) for a in (
         "CLT", "CHI2", "FINITE_SAMPLE")] + [
             dict(sizes=(2, 2, 2, 2), algo=a) for a in (
                 "CLT", "FINITE_SAMPLE")],
     bounds="up to 8 units over up to 3 updates (4 thorough), up to 14 units "
     "and 4 updates with shuffles that keep, reverse or rotate; "
     "delta any value in (0,1); scale, tau bound, rho any positive values, "
     "burn-in any value above 1" + MANY_BOUNDS, timeout_ms=60000)
def interval_formulas(env, sizes, algo, few=False):
  env.few_orders = few
  eta = Eta(env, "eta")
  if few == "one":
    eta.plain = True
  kw = {}
  if algo == "FINITE_SAMPLE":
    kw = dict(tau_bound=env.real("tau_bound", gt=0),
              sub_gscale=env.real("sub_g", gt=0),
              eta_sub_gscale=env.real("eta_sub_g", gt=0),
              rho=env.real("rho", gt=0),
              burn_in=env.real("m", gt=1))
  if few == "one":
    kw = {k: env.const(2) for k in kw}
  arm = make(env, eta, algo, **kw)
  d = delta(env)
  (lo, hi) = feed(env, arm, sizes, deltas(env, d, sizes, few))[-1]
  f = eta.in_force
  start = sum(sizes)
  judged = [i for i in range(start) if i not in set(last(eta, "fit")[1])]
  n = len(judged)
  var = arm.var_est
  if algo == "CHI2" and n < 2:
    # no degrees of freedom
    env.check("vacuous", env.and_(env.eq(lo, 0), env.isposinf(hi)))
  elif algo == "CHI2":
    env.check("low", env.eq(
        lo * env.chi2_quantile(1 - d / 2, n - 1), var * (n - 1)))
    env.check("high", env.eq(
        hi * env.chi2_quantile(d / 2, n - 1), var * (n - 1)))
  elif algo == "CLT":
    rows = {r[0]: r for r in eta.seen}
    s = [eta.score(f, rows[i]) for i in judged]
    m = mean(s)
    sq = [(x - m) * (x - m) for x in s]
    msq = mean(sq)
    vv = mean([(q - msq) * (q - msq) for q in sq])
    t = len(sizes)
    half = env.normal_quantile(1 - d / (t * t) / 2) * env.sqrt(vv / n)
    env.check("high", env.eq(hi, var + half))
    env.check("low", env.eq(lo, env.ite(env.le(0, var - half), var - half, 0)))
  else:
    w = last(eta, "width")
    env.check("nuisance-share", env.eq(w[1], d / 2))
    env.check("nuisance-scale", env.and_(env.eq(w[2], kw["eta_sub_gscale"]),
                                         env.eq(w[3], kw["rho"])))
    if env.truth(env.lt(n, kw["burn_in"])):
      env.check("burn-in", env.and_(env.eq(lo, 0), env.isposinf(hi)))
      return
    g = kw["sub_gscale"]
    lam = env.ite(env.le(8 * g * g, g), g, 8 * g * g)
    arg = lam * n / kw["burn_in"]
    lg = env.log(env.ite(env.le(1, arg), arg, env.const(1)))
    half = (env.const(0.625) * (env.sqrt(2 * g) + kw["tau_bound"]) *
            env.sqrt(2 * lg / n + env.const(0.5) + env.log(4 / d)) /
            env.sqrt(env.const(n)))
    width = env.fn("width", [d / 2, len(eta.recent_data)], lo=0)
    half = half + width * width
    env.check("high", env.eq(hi, var + half))
    env.check("low", env.eq(lo, env.ite(env.le(0, var - half), var - half, 0)))
