"""The bandit algorithms, over arms whose intervals are arbitrary."""
from symx.run import job

ALGOS = {"uniform": "UniformAlgorithm", "lucb": "LUCBAlgorithm",
         "se": "SuccessiveEliminationAlgorithm"}


class Rec:
  """What happened in one update of an arm."""

  def __init__(self, batch, delta, lo, hi, var):
    self.batch, self.delta = batch, delta
    self.lo, self.hi, self.var = lo, hi, var


def arm_class(env, log, cap, mode, truths):
  """Arms with an arbitrary interval around an arbitrary estimate."""

  class Scripted(env.m.arms.VarianceEstimatorArm):

    def __init__(self, k, cost):
      super().__init__(f"arm{k}", None, lambda d: d, cost)
      self.k = k
      self.units = 0
      self.state = ((0, float("inf")), None)
      self.resets = 0

    def interval(self):
      k, t = self.k, len([1 for a, _ in log if a == self.k])
      n = f"a{k}t{t}"
      lo = env.real(n + ".lo", lo=0)
      if mode == "finite":
        var = env.real(n + ".var", lo=0)
        hi = env.real(n + ".hi", lo=0)
      else:
        var, hi = env.ext(n + ".var", lo=0), env.ext(n + ".hi", lo=0)
      env.assume(env.and_(env.le(lo, var), env.le(var, hi)))
      if truths is not None:
        env.assume(env.and_(env.le(lo, truths[k]), env.le(truths[k], hi)))
      return lo, hi, var

    def update(self, new_data, delta):
      if len(log) >= cap:
        env.cut("more updates than the bound")
      lo, hi, var = self.interval()
      log.append((self.k, Rec(new_data, delta, lo, hi, var)))
      self.units += len(new_data)
      self._num_pulled += 1
      self._ci, self._var_est = (lo, hi), var
      self.state = ((lo, hi), var)
      return self.ci

    def get_num_units(self):
      return self.units

    def reset(self):
      self.resets += 1
      self.units = 0
      self._num_pulled = 0
      self._ci, self._var_est = (-float("inf"), float("inf")), None
      self.state = (self._ci, None)

    ci = property(lambda s: s.state[0])
    var_est = property(lambda s: s.state[1])
    ate = property(lambda s: 0.0)
    num_pulled = property(lambda s: sum(1 for a, _ in log if a == s.k))

  return Scripted


class Source:
  """A data generator whose batches can be told apart."""

  def __init__(self, env):
    self.env = env
    self.made = []

  def generate(self, n_units):
    base = 1000 * (len(self.made) + 1)
    e = numbered(self.env, n_units, base)
    self.made.append((n_units, e))
    return e


def numbered(env, n, base=0):
  return env.m.data.ExpData(
      env.mat([[base + i] for i in range(n)], 1),
      env.vec([i % 2 for i in range(n)], integer=True),
      env.vec([float(base + i) for i in range(n)]))


def ids(env, d):
  return [int(c) for c in env.cells(d.cov)]


class Play:
  """One run and everything the property checks look at."""

  def __init__(self, env, algo, k, rounds, units=2, stable=False, cap=None,
               mode="ext", costs=None, truths=None, limit="sym", tol=None,
               data_len=None, rerun=False, early=0):
    self.env, self.k, self.units, self.stable = env, k, units, stable
    self.log = []
    if early:
      # that many rounds with given intervals come first
      first = early * k if algo == "uniform" else k + 2 * (early - 1) if (
          algo == "lucb") else early * k - max(0, early - 2)
      cap = first + (2 if algo == "lucb" else k) * rounds
    cap = cap or k * rounds
    self.cap = cap
    cls = arm_class(env, self.log, cap, mode, truths)
    if early:
      prelude(env, cls, algo, k, self.log, first, truths)
    costs = costs or [1] * k
    self.costs = costs
    self.arms = [cls(i, c) for i, c in enumerate(costs)]
    self.source = Source(env)
    self.err = env.real("error_prob", gt=0, lt=1)
    self.tol = env.real("error_tol", lo=0) if tol is None else tol
    if limit == "sym":
      # limits from which the run still ends within the bound; after a given
      # start also those beyond it, where runs that do not end are cut
      top = cap * units - (0 if early else k * units)
      low = first * units - units if early > 5 else 0
      self.limit = env.int("limit", low, max(top, 0))
    else:
      self.limit = limit
    cls = getattr(env.m.bandits, ALGOS[algo])
    self.bandit = cls(self.arms, self.source, error_prob=self.err,
                      error_tol=self.tol, confidence=.05,
                      sample_limit=self.limit, units_per_round=units)
    self.algo = algo
    self.data = None
    if stable:
      self.data = numbered(env, units * cap if data_len is None else data_len)
    if not rerun:
      self.go()

  def go(self):
    self.out = self.bandit.run(self.data) if self.stable else self.bandit.run()
    self.rounds = len(self.out.cum_samples)
    return self.out

  def samples(self, arm, t):
    return int(self.out.samples_by_arm[arm][t])

  def at(self, arm, t):
    """(lo, hi, var) of the arm after round t, cost-scaled."""
    done = sum(1 for s in range(t + 1) if self.samples(arm, s))
    r = [r for a, r in self.log if a == arm.k][:done]
    if not r:
      return None
    r, c = r[-1], arm.cost
    return c * r.lo, c * r.hi, c * r.var

  def total(self, t):
    return sum(self.samples(a, s) for a in self.arms for s in range(t + 1))

  def best(self):
    return list(self.out.best_arm)

  def hit_limit(self):
    return self.env.lt(self.limit, self.total(self.rounds - 1))


def prelude(env, cls, algo, k, log, first, truths):
  """The first intervals of a run are given: nobody wins, one arm may lose."""
  later = cls.interval

  def interval(arm):
    if len(log) >= first:
      return later(arm)
    t = len([1 for a, _ in log if a == arm.k])
    lo = (3 * arm.k + 4 * t) % 7 + arm.k / 8 if algo == "lucb" else 0.0
    var, hi = 10.0 + (7 * arm.k + 5 * t) % 11 + arm.k / 8, 1000.0
    if algo == "se" and k > 2 and arm.k == k - 1:
      hi = 10000.0
      if t == 1:
        lo, var = 9000.0, 9500.0  # out of the race
    if truths is not None:
      env.assume(env.and_(env.le(lo, truths[arm.k]),
                          env.le(truths[arm.k], hi)))
    return env.const(lo), env.const(hi), env.const(var)

  cls.interval = interval


QUICK = [dict(algo=a, k=2, rounds=3, stable=s) for a in ALGOS
         for s in (False, True)] + [
             dict(algo="uniform", k=3, rounds=2, stable=False),
             dict(algo="se", k=3, rounds=2, stable=False),
             dict(algo="lucb", k=3, rounds=2, stable=False)]
DEEP = [dict(algo="uniform", k=3, rounds=3, stable=True),
        dict(algo="se", k=3, rounds=3, stable=True),
        dict(algo="lucb", k=3, rounds=3, stable=True),
        dict(algo="uniform", k=2, rounds=5, stable=False),
        dict(algo="se", k=2, rounds=5, stable=False),
        dict(algo="lucb", k=2, rounds=5, stable=False)]
BOUNDS = ("2 arms over 3 rounds and 3 arms over 2 rounds (5 and 3 thorough); "
          "every interval, estimate, error_prob, tolerance and sample limit "
          "within the bound symbolic")


LONG = [dict(algo=a, k=k, rounds=1, stable=s, costs=c, early=5)
        for a in ALGOS for k, s, c in [(4, False, None), (3, True, (2, 1, 3))]]
LONG += [dict(algo=a, k=3, rounds=1, stable=s, early=40)
         for a in ALGOS for s in (False, True)]
OTHER_UNITS = [dict(algo=a, k=2, rounds=2, stable=st, units=u)
               for a in ALGOS for st, u in ((False, 1), (True, 5), (True, 1))]
LONG_BOUNDS = ("3 and 4 arms over 5 rounds (3 arms over 40) with given "
               "intervals that drop at most one arm, then one round with any")
BOUNDS += "; " + LONG_BOUNDS + "; 2 units a round, also 1 and 5"


def finite(env, xs):
  return env.and_(*[env.finite(x) for x in xs])


def settled(env, p, t, b, strict):
  """The stopping rule for arm b after round t."""
  st = [p.at(a, t) for a in p.arms]
  up = st[b.k][1]
  cmp = env.lt if strict else env.le
  return env.and_(finite(env, [s[1] for s in st]), *[
      cmp(up, s[0] + p.tol) for i, s in enumerate(st) if i != b.k])


def uneven(env, rounds, stable):
  """LUCB with three arms that get ahead of one another; nothing ever ends it."""
  updates = 3 + 2 * (rounds - 1)
  p = Play(env, "lucb", 3, rounds, stable=stable, cap=updates, tol=0,
           limit=2 * updates - 1, rerun=True)
  lows, ests = [], []

  def script(arm):
    del arm
    lo = env.real(f"u{len(lows)}.lo", lo=0)
    var = env.real(f"u{len(lows)}.var", lo=0)
    env.assume(env.and_(env.le(lo, var), *[
        env.not_(env.eq(x, lo)) for x in lows], *[
            env.not_(env.eq(x, var)) for x in ests]))
    lows.append(lo)
    ests.append(var)
    return lo, float("inf"), var

  type(p.arms[0]).interval = script
  p.go()
  return p


UNEVEN = ("LUCB with 3 arms over 3 rounds (4 thorough) that no interval ever "
          "ends, any distinct estimates and lower bounds: the arms get ahead "
          "of one another")


@job("B01", quick=QUICK + LONG, thorough=DEEP, bounds=BOUNDS)
def error_budget(env, algo, k, rounds, stable, costs=None, early=0):
  check_budget(env, Play(env, algo, k, rounds, stable=stable, costs=costs,
                         early=early))


@job("B01", quick=[dict(rounds=3)], thorough=[dict(rounds=4)], bounds=UNEVEN)
def uneven_budget(env, rounds):
  check_budget(env, uneven(env, rounds, False))


def check_budget(env, p):
  k, rounds = p.k, p.rounds
  for _, r in p.log:
    env.check("share", env.eq(r.delta * k, p.err))
    env.check("in-range", env.and_(env.lt(0, r.delta), env.lt(r.delta, 1)))
  for t in range(rounds):
    ds = [[r.delta for a, r in p.log if a == i][t:t + 1] for i in range(k)]
    env.check("budget", env.le(sum(d[0] for d in ds if d), p.err))


@job("B02", quick=[q for q in QUICK if q["algo"] != "se"] + [
    dict(algo=a, k=2, rounds=2, stable=False, costs=(.5, 3))
    for a in ("uniform", "lucb")] + [q for q in LONG if q["algo"] != "se"],
     thorough=[q for q in DEEP if q["algo"] != "se"] + [
         dict(algo=a, k=3, rounds=2, stable=False, costs=(2, 3, 1))
         for a in ("uniform", "lucb")], bounds=BOUNDS)
def stops_when_settled(env, algo, k, rounds, stable, costs=None, early=0):
  p = Play(env, algo, k, rounds, stable=stable, costs=costs, early=early)
  last = p.rounds - 1
  ended = env.truth(p.hit_limit())
  best = p.best()
  if not ended:
    env.check("one-arm", len(best) == 1 and best[0] in p.arms)
    if len(best) == 1:
      env.check("settled", settled(env, p, last, best[0], False))
      env.check("lowest-estimate", env.and_(*[
          env.le(p.at(best[0], last)[2], p.at(a, last)[2]) for a in p.arms]))
  # it does not go on once some arm has the lowest estimate and is settled
  for t in range(p.rounds - 1):
    if algo == "lucb" and t == 0:
      continue  # the shared first batch is not judged
    for b in p.arms:
      low = env.and_(*[env.lt(p.at(b, t)[2], p.at(a, t)[2])
                       for a in p.arms if a is not b])
      env.check("stops-in-time", env.not_(env.and_(
          low, settled(env, p, t, b, True))))


@job("B03", quick=[q for q in QUICK if q["algo"] == "se"] + [
    dict(algo="se", k=2, rounds=3, stable=False, costs=(.5, 3)),
    dict(algo="se", k=3, rounds=2, stable=True)] + [
        q for q in LONG if q["algo"] == "se"],
     thorough=[q for q in DEEP if q["algo"] == "se"], bounds=BOUNDS)
def elimination(env, algo, k, rounds, stable, costs=None, early=0):
  p = Play(env, algo, k, rounds, stable=stable, costs=costs, early=early)
  alive = list(p.arms)
  for t in range(p.rounds):
    for a in p.arms:
      # exactly the arms still in the race are sampled
      env.check("sampled", (p.samples(a, t) > 0) == (a in alive))
    st = {a.k: p.at(a, t) for a in alive}
    nxt = [a for a in alive if (
        p.samples(a, t + 1) > 0 if t + 1 < p.rounds else a in p.best())]
    limited = t + 1 == p.rounds and env.truth(p.hit_limit())
    env.check("someone-stays", len(nxt) > 0)
    low = None
    for a in alive:
      beats = [env.le(st[b.k][1], st[a.k][0]) for b in alive if b is not a]
      lowest = [env.and_(*[env.le(st[b.k][2], st[c.k][2]) for c in alive])
                for b in alive if b is not a]
      if a not in nxt and not (limited and len(p.best()) >= 1):
        env.check("only-the-beaten-leave", env.or_(*beats))
      if a in nxt and not limited:
        env.check("the-beaten-leave", env.not_(env.or_(*[
            env.and_(l, env.lt(st[b.k][1], st[a.k][0])) for l, b in zip(
                lowest, [b for b in alive if b is not a])])))
    del low
    if t + 1 < p.rounds:
      env.check("race-goes-on", len(nxt) > 1)
    alive = nxt
  for b in p.best():
    env.check("best-in-race", p.samples(b, p.rounds - 1) > 0)


@job("B04", quick=[dict(k=k, costs=c) for k, c in [
    (2, None), (3, None), (4, None), (2, (.5, 3)), (3, (3, .5, 2))]],
     thorough=[dict(k=5, costs=None)],
     bounds="up to 4 arms (5 thorough) with any intervals and estimates, "
     "infinite ones included")
def lucb_picks(env, k, costs):
  log = []
  cls = arm_class(env, log, 10**6, "ext", None)
  costs = costs or [1] * k
  arms = [cls(i, c) for i, c in enumerate(costs)]
  for a in arms:
    a.update([], .1)
  b = env.m.bandits.LUCBAlgorithm(arms, None, error_prob=.05, confidence=.05,
                                  sample_limit=100, units_per_round=1)
  got = b.select_arms()
  got = list(got)
  env.check("two-arms", len(got) == 2 and got[0] is not got[1] and all(
      g in arms for g in got))
  st = [(c * a.state[0][0], c * a.state[0][1], c * a.state[1])
        for a, c in zip(arms, costs)]
  lead, chal = got[0].k, got[1].k
  env.check("leader-lowest-estimate",
            env.and_(*[env.le(st[lead][2], s[2]) for s in st]))
  for s in st:
    env.check("leader-widest-among-ties", env.implies(
        env.eq(s[2], st[lead][2]), env.le(s[1], st[lead][1])))
  env.check("challenger-lowest-bound", env.and_(*[
      env.le(st[chal][0], s[0]) for i, s in enumerate(st) if i != lead]))
  env.check("state-kept", env.and_(*[
      env.and_(env.eq(a.ci[0], a.state[0][0]), len(log) == k) for a in arms]))


@job("B04", quick=[dict(k=k) for k in (2, 3, 4)], bounds="up to 4 arms, any of "
     "them not pulled yet or with an undefined estimate")
def lucb_picks_two(env, k):
  log = []
  cls = arm_class(env, log, 10**6, "ext", None)
  arms = [cls(i, 1) for i in range(k)]
  kinds = [env.choose(f"state{i}", ("unset", "nan", "set")) for i in range(k)]
  for a, s in zip(arms, kinds):
    if s != "unset":
      a.update([], .1)
    if s == "nan":
      a.state = (a.state[0], float("nan"))
  b = env.m.bandits.LUCBAlgorithm(arms, None, error_prob=.05, confidence=.05,
                                  sample_limit=100, units_per_round=1)
  got, e = env.raises(b.select_arms)
  env.check("accepted", e is None)
  if e is None:
    got = list(got)
    env.check("two-arms", len(got) == 2 and got[0] is not got[1] and all(
        any(g is a for a in arms) for g in got))


@job("B05", quick=QUICK + [dict(algo="lucb", k=2, rounds=2, stable=False,
                                costs=(.5, 3))] + LONG + OTHER_UNITS,
     thorough=DEEP, bounds=BOUNDS)
def bookkeeping(env, algo, k, rounds, stable, costs=None, early=0,
                units=2):
  check_books(env, Play(env, algo, k, rounds, stable=stable, costs=costs,
                        early=early, units=units))


@job("B05", quick=[dict(rounds=3)], thorough=[dict(rounds=4)], bounds=UNEVEN)
def uneven_books(env, rounds):
  check_books(env, uneven(env, rounds, False))


def check_books(env, p):
  o = p.out
  n = p.rounds
  seen = {a.k: 0 for a in p.arms}
  order = []
  for a in p.arms:
    env.check("lengths", all(len(x[a]) == n for x in (
        o.lcb_by_arm, o.ucb_by_arm, o.var_est_by_arm, o.samples_by_arm)))
  for t in range(n):
    for a in p.arms:
      s = p.samples(a, t)
      env.check("allocation", s in (0, p.units))
      if s:
        rs = [r for i, r in p.log if i == a.k]
        env.check("updated", seen[a.k] < len(rs))
        r = rs[seen[a.k]]
        env.check("batch-size", len(r.batch) == p.units)
        seen[a.k] += 1
        order.append(a.k)
      st = p.at(a, t)
      env.check("recorded", env.and_(
          env.eq(o.lcb_by_arm[a][t], st[0]), env.eq(o.ucb_by_arm[a][t], st[1]),
          env.eq(o.var_est_by_arm[a][t], st[2])))
    env.check("cumulative", o.cum_samples[t] == p.total(t))
  env.check("no-hidden-updates", len(order) == len(p.log))
  env.observe("cum", list(o.cum_samples))


@job("B05", quick=[dict(algo=a, k=2, rounds=2) for a in ALGOS] + [
    dict(algo=a, k=3, rounds=1, early=5) for a in ALGOS],
     thorough=[dict(algo=a, k=3, rounds=3) for a in ALGOS],
     bounds="2 arms over 2 rounds (3 over 3 thorough), 3 arms over one round "
     "after 5 given ones")
def fresh_samples(env, algo, k, rounds, early=0):
  p = Play(env, algo, k, rounds, early=early)
  for a in p.arms:
    got = [i for j, r in p.log if j == a.k for i in ids(env, r.batch)]
    env.check("never-twice", len(got) == len(set(got)))
  env.check("asked-for", all(n == p.units for n, _ in p.source.made))


@job("B06", quick=QUICK + LONG + OTHER_UNITS, thorough=DEEP, bounds=BOUNDS)
def sample_limit(env, algo, k, rounds, stable, costs=None, early=0,
                 units=2):
  p = Play(env, algo, k, rounds, stable=stable, costs=costs, early=early, units=units)
  for t in range(p.rounds - 1):
    env.check("no-round-beyond-the-limit", env.le(p.total(t), p.limit))
  env.check("some-answer", len(p.best()) >= 1 and all(
      b in p.arms for b in p.best()))
  # it runs until it has an answer or the limit is passed
  if not env.truth(p.hit_limit()):
    env.check("single-answer", len(p.best()) == 1)


@job("B06", quick=[dict(algo=a) for a in ALGOS],
     bounds="no sample limit; 2 arms, up to 3 rounds")
def without_limit(env, algo):
  """None means no limit at all."""
  p = Play(env, algo, 2, 3, limit=None)
  env.check("single-answer", len(p.best()) == 1)


@job("B07", quick=[q for q in QUICK if q["stable"]] + [
    dict(algo=a, k=3, rounds=2, stable=True) for a in ALGOS] + [
        q for q in LONG + OTHER_UNITS if q["stable"]],
     thorough=[q for q in DEEP if q["stable"]], bounds=BOUNDS)
def stable_order(env, algo, k, rounds, stable, costs=None, early=0,
                 units=2):
  del stable
  p = Play(env, algo, k, rounds, stable=True, costs=costs, early=early, units=units)
  for a in p.arms:
    got = [i for j, r in p.log if j == a.k for i in ids(env, r.batch)]
    env.check("prefix", got == list(range(len(got))))
  env.check("no-other-source", not p.source.made)


@job("B07", quick=[dict(rounds=3)], thorough=[dict(rounds=4)],
     bounds=UNEVEN)
def uneven_progress(env, rounds):
  p = uneven(env, rounds, True)
  counts = []
  for a in p.arms:
    got = [i for j, r in p.log if j == a.k for i in ids(env, r.batch)]
    env.check("prefix", got == list(range(len(got))))
    counts.append(len(got))
  env.check("no-other-source", not p.source.made)
  env.observe("counts", counts)


@job("B07", quick=[dict(algo=a, n=n) for a in ALGOS for n in (3, 5)],
     bounds="a data set that runs out after 3 or 5 units; 2 arms")
def data_runs_out(env, algo, n):
  p = Play(env, algo, 2, 3, stable=True, data_len=n)
  for a in p.arms:
    got = [i for j, r in p.log if j == a.k for i in ids(env, r.batch)]
    env.check("prefix", got == list(range(len(got))))


@job("B08", quick=QUICK + [dict(algo=a, k=2, rounds=2, stable=False,
                                costs=(.5, 3)) for a in ALGOS] + LONG,
     thorough=DEEP, bounds=BOUNDS)
def best_at_the_limit(env, algo, k, rounds, stable, costs=None, early=0):
  p = Play(env, algo, k, rounds, stable=stable, costs=costs, early=early)
  last = p.rounds - 1
  if not env.truth(p.hit_limit()):
    return
  best = p.best()
  st = [p.at(a, last) for a in p.arms]
  race = p.arms
  if algo == "se":
    # only arms sampled in the last round are still in the race
    race = [a for a in p.arms if p.samples(a, last)]
    env.check("in-race", all(b in race for b in best))
  for b in best:
    # of the arms in the race that were not just eliminated
    for a in race:
      ok = env.le(st[b.k][2], st[a.k][2])
      if algo == "se":
        ok = env.or_(ok, *[env.le(st[c.k][1], st[a.k][0]) for c in race
                           if c is not a])
      env.check("lowest-estimate", ok)
  # an answer found in the very round that passed the limit stands alone
  if algo != "se" and not (len(best) == 1 and env.truth(
      settled(env, p, last, best[0], False))):
    for a in p.arms:
      env.check("all-ties", env.implies(
          env.and_(*[env.le(st[a.k][2], s[2]) for s in st]), a in best))
  env.check("no-duplicates", len(set(b.k for b in best)) == len(best))


@job("B09", quick=[dict(algo=a, k=2) for a in ALGOS] + [
    dict(algo="se", k=3)], thorough=[dict(algo="lucb", k=3)],
     bounds="2 arms, 2 rounds; 3 arms for successive elimination (and LUCB "
     "thorough)")
def reset_and_rerun(env, algo, k):
  p = Play(env, algo, k, 4, cap=10**6, rerun=True, stable=True,
           data_len=16 * k, limit=2 * k)

  def script(self):
    # the same numbers for the same pull, whichever run
    t = sum(1 for a, _ in p.log[p.start:] if a == self.k)
    return p.script[(self.k, t)]
  p.start = 0
  p.script = {}
  for i in range(k):
    for t in range(4):
      lo = env.real(f"s{i}{t}.lo", lo=0)
      var, hi = env.ext(f"s{i}{t}.var", lo=0), env.ext(f"s{i}{t}.hi", lo=0)
      env.assume(env.and_(env.le(lo, var), env.le(var, hi)))
      p.script[(i, t)] = (lo, hi, var)
  type(p.arms[0]).interval = script
  p.bandit.reset()
  env.check("every-arm-reset", all(x.resets == 1 for x in p.arms))
  with env.same_draws():
    a = p.go()
  p.bandit.reset()
  env.check("every-arm-reset", all(x.resets == 2 for x in p.arms))
  p.start = len(p.log)
  with env.same_draws():
    b = p.go()
  env.check("same-samples", list(a.cum_samples) == list(b.cum_samples) and all(
      list(a.samples_by_arm[x]) == list(b.samples_by_arm[x]) for x in p.arms))
  env.check("same-best", [x.k for x in a.best_arm] == [x.k for x in b.best_arm])
  first, second = p.log[:p.start], p.log[p.start:]
  env.check("same-updates", [(i, ids(env, r.batch)) for i, r in first] == [
      (i, ids(env, r.batch)) for i, r in second])


@job("B10", quick=[dict(algo=a, conf=c, lim=l) for a in ALGOS
                   for c in (None, "sym") for l in (None, "inf", 10, "nan")] +
     [dict(algo=a, conf="sym", lim=10, odd=o, value=v) for a in ALGOS
      for o in ("error_prob", "error_tol", "confidence")
      for v in ("nan", "inf", "-inf")],
     bounds="any error_prob, error_tol and confidence, undefined and infinite "
     "ones included; limit None, infinite, undefined or finite")
def constructor_rejects(env, algo, conf, lim, odd=None, value=None):
  err, tol = env.real("error_prob"), env.real("error_tol")
  c = None if conf is None else env.real("confidence")
  limit = float(lim) if isinstance(lim, str) else lim
  if odd == "error_prob":
    err = float(value)
  if odd == "error_tol":
    tol = float(value)
  if odd == "confidence":
    c = float(value)
  cls = getattr(env.m.bandits, ALGOS[algo])
  b, e = env.raises(cls, [], None, error_prob=err, error_tol=tol, confidence=c,
                    sample_limit=limit, units_per_round=5)
  good = env.and_(env.lt(0, err), env.lt(err, 1), env.le(0, tol))
  if c is None:
    good = env.and_(good, lim == 10)
  else:
    good = env.and_(good, env.lt(0, c), env.lt(c, 1))
  if e is None:
    env.check("rejects-bad", good)
  else:
    env.check("accepts-good", env.not_(good))
    env.check("ValueError", isinstance(e, ValueError))
  del b


@job("B11", quick=[dict(algo=a, k=2, rounds=3) for a in ALGOS] +
     [dict(algo=a, k=3, rounds=2) for a in ALGOS] +
     [dict(algo=a, k=4, rounds=1, early=5) for a in ALGOS],
     thorough=[dict(algo=a, k=3, rounds=3) for a in ALGOS],
     bounds=BOUNDS)
def right_when_intervals_hold(env, algo, k, rounds, early=0):
  """Every interval contains the truth: the answer is right."""
  truths = env.reals("truth", k, lo=0)
  p = Play(env, algo, k, rounds, truths=truths, early=early)
  if env.truth(p.hit_limit()):
    if algo == "se":
      # an arm the race has lost is never better than what is left
      last = p.rounds - 1
      race = [a for a in p.arms if p.samples(a, last)]
      env.check("best-still-in-race", env.or_(*[
          env.and_(*[env.le(truths[a.k], t) for t in truths]) for a in race]))
    return
  tol = 0 if algo == "se" else p.tol
  for b in p.best():
    env.check("within-tolerance", env.and_(*[
        env.le(truths[b.k], t + tol) for t in truths]))
