"""Structural causal models and their mechanisms."""
from symx.run import job


class Cpd:
  """A mechanism returning fresh values and recording how it was called."""

  def __init__(self, env, name, width, log, fail_at=None):
    self.env, self.name, self.width, self.log = env, name, width, log
    self.fail_at, self.calls = fail_at, 0

  def __call__(self, n, parents):
    env = self.env
    self.calls += 1
    if self.fail_at == self.calls:
      raise KeyError("mechanism failed")
    k = f"{self.name}{self.calls}."
    out = (env.real_mat(k, n, self.width) if self.width
           else env.real_vec(k, n))
    self.log.append((self.name, n, list(parents), out))
    return out


def cols(env, v, n):
  """The columns a sample contributes."""
  r = env.rows(v) if v.ndim > 1 else None
  if v.ndim == 1:
    return [list(env.cells(v))]
  return [[r[i][j] for i in range(n)] for j in range(v.shape[1])]


def one_sample(env, scm, names, parents, log, covs, t, y, n, out, do=None):
  """log describes one ancestral sample and out is assembled from it."""
  env.check("each-variable-once", [r[0] for r in log] == [
      v for v in names if not (do is not None and v == t)])
  got = {}
  for name, m, ps, v in log:
    env.check("sample-size", m == n)
    want = []
    ok = True
    for p in parents[name]:
      if do is not None and p == t:
        want.append(None)
      elif p in got:
        want.append(got[p])
      else:
        ok = False
    env.check("parents-sampled-first", ok)
    if ok:
      env.check("parents-in-order", len(ps) == len(want))
      for a, b in zip(ps, want):
        if b is None:
          env.check("intervened-value", env.eq(env.cells(a), [do] * n))
        else:
          env.check("parents-in-order", env.eq(a, b))
    got[name] = v
  if out is None:
    return got
  if do is not None:
    got[t] = env.vec([do] * n)
  want = [c for v in covs for c in cols(env, got[v], n)]
  rows = env.rows(out.cov)
  env.check("covariate-columns", env.eq(
      [[r[j] for r in rows] for j in range(out.cov.shape[1])], want))
  env.check("treatment", env.eq(out.exp, got[t]))
  env.check("response", env.eq(out.rsp, got[y]))
  env.check("n_units", out.n_units == n)
  return got


@job("S01", quick=[dict(k=k, n=n, wide=w) for k, n, w in [
    (2, 1, False), (3, 2, True), (4, 1, False)]],
     thorough=[dict(k=4, n=2, wide=True), dict(k=5, n=1, wide=False)],
     bounds="every graph over k <= 4 variables (5 thorough) whose edges "
     "respect, or in one place violate, the declared order; n <= 2 samples; "
     "covariates of width up to 2; every pair of covariates in either order")
def ancestral_sampling(env, k, n, wide):
  names = ["A", "B", "C", "D", "E"][:k]
  log = []
  t, y = names[-2], names[-1]
  wid = {v: 0 for v in names}
  if wide:
    wid[names[0]] = 2
  parents = {}
  for i, v in enumerate(names):
    parents[v] = [p for p in names[:i] if env.truth(env.bool(f"{p}{v}"))]
    if len(parents[v]) > 1 and env.truth(env.bool(f"rev{v}")):
      parents[v].reverse()
  late = env.choose("late", [None] + [(a, b) for i, a in enumerate(names)
                                      for b in names[:i + 1]][:4])
  if late:
    parents[late[1]] = parents[late[1]] + [late[0]]
  rest = [v for v in names if v not in (t, y)] or [names[0]]
  covs = env.choose("covs", [rest, rest[::-1], [names[0]]])
  model = env.m.scm.SCM("m", names, parents,
                        {v: Cpd(env, v, wid[v], log) for v in names},
                        covs, t, y)
  out, e = env.raises(model.generate, n)
  if late:
    env.check("not-topological-rejected", isinstance(e, ValueError))
    return
  env.check("accepted", e is None)
  if e is None:
    one_sample(env, model, names, parents, log, covs, t, y, n, out)
    del log[:]
    out = model.generate(n + 1)
    one_sample(env, model, names, parents, log, covs, t, y, n + 1, out)


MANY = [f"V_{i}" for i in range(13)]


@job("S01", quick=[dict(order=o) for o in ("counted", "back", "mixed")],
     bounds="one graph over 13 variables, names in three orders, each variable "
     "with up to 4 parents; any wide or flat first variable; 2 samples, twice")
def many_variables(env, order):
  names = {"counted": MANY, "back": MANY[::-1],
           "mixed": MANY[1::2] + MANY[::2]}[order]
  log = []
  t, y = names[-2], names[-1]
  parents = {v: [] for v in names}
  for i, v in enumerate(names):
    parents[v] = [names[j] for j in (i - 1, i - 7, i - 10, i - 2) if j >= 0]
  wid = {v: 0 for v in names}
  wid[names[3]] = 2 if env.truth(env.bool("wide")) else 0
  covs = [names[j] for j in (10, 2, 3, 0, 9, 1)]
  model = env.m.scm.SCM("m", names, parents,
                        {v: Cpd(env, v, wid[v], log) for v in names},
                        covs, t, y)
  for n in (2, 1):
    del log[:]
    out = model.generate(n)
    one_sample(env, model, names, parents, log, covs, t, y, n, out)


@job("S01", bounds="a two-variable model, each declaration broken in turn")
def bad_graph_rejected(env):
  what = env.choose("what", ["parents", "cpds", "treatment", "response", "cov",
                             None])
  names = ["A", "B"]
  parents = {"A": [], "B": ["A"]}
  log = []
  cpds = {v: Cpd(env, v, 0, log) for v in names}
  if what == "parents":
    del parents[env.choose("v", names)]
  if what == "cpds":
    del cpds[env.choose("v", names)]
  _, e = env.raises(env.m.scm.SCM, "m", names, parents, cpds,
                    ["A", "X"] if what == "cov" else ["A"],
                    "X" if what == "treatment" else "A",
                    "X" if what == "response" else "B")
  env.check("rejected-iff-broken", (e is None) == (what is None))
  env.check("ValueError", e is None or isinstance(e, ValueError))


@job("S02", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3), dict(n=4)],
     bounds="n <= 2 samples (4 thorough); the graph W -> T -> Y <- W with "
     "optional mediator")
def treatment_effect(env, n):
  log = []
  med = env.truth(env.bool("mediator"))
  names = ["W", "T"] + (["M"] if med else []) + ["Y"]
  parents = {"W": [], "T": ["W"], "M": ["T"],
             "Y": ["W", "M" if med else "T"]}
  cpds = {v: Cpd(env, v, 0, log) for v in names}
  before = dict(cpds)
  model = env.m.scm.SCM("m", names, parents, cpds, ["W"], "T", "Y")
  tau = model.compute_treatment_effect(n)
  runs = {}
  for r in log:
    runs.setdefault(r[0], []).append(r)
  env.check("treatment-mechanism-unused", "T" not in runs)
  env.check("two-samples", all(len(runs.get(v, ())) == 2 for v in names
                               if v != "T"))
  k = len(log) // 2
  ys = []
  # the two intervened samples, in either order
  for part in (log[:k], log[k:]):
    child = next(r for r in part if r[0] == ("M" if med else "Y"))
    tv = env.cells(child[2][0 if med else 1])
    env.check("do-length", len(tv) == n)
    do = 1 if env.truth(env.eq(tv[0], 1)) else 0
    one_sample(env, model, names, parents, part, ["W"], "T", "Y", n, None, do)
    y = next(r for r in part if r[0] == "Y")[3]
    ys.append((do, sum(env.cells(y)) / n))
  env.check("both-arms", sorted(d for d, _ in ys) == [0, 1])
  means = dict(ys)
  if len(means) == 2:
    env.check("effect", env.eq(tau, means[1] - means[0]))
  env.check("model-unchanged", set(model.cpds) == set(before) and all(
      model.cpds[v] is before[v] for v in before))
  env.observe("tau", tau)
  # and it still samples observationally
  del log[:]
  out = model.generate(n)
  one_sample(env, model, names, parents, log, ["W"], "T", "Y", n, out)


@job("S02", bounds="the response mechanism failing at its 1st or 2nd call")
def failed_intervention_restores(env):
  log = []
  names = ["W", "T", "Y"]
  at = env.choose("at", (1, 2))
  cpds = {v: Cpd(env, v, 0, log, at if v == "Y" else None) for v in names}
  before = dict(cpds)
  model = env.m.scm.SCM("m", names, {"W": [], "T": ["W"], "Y": ["W", "T"]},
                        cpds, ["W"], "T", "Y")
  _, e = env.raises(model.compute_treatment_effect, 1)
  env.check("failure-reported", isinstance(e, KeyError))
  env.check("model-unchanged", set(model.cpds) == set(before) and all(
      model.cpds[v] is before[v] for v in before))


# ---------------------------------------------------------------------------
# mechanisms
def parent_samples(env, n, dims):
  return [env.real_mat(f"p{i}.", n, d) if d else env.real_vec(f"p{i}.", n)
          for i, d in enumerate(dims)]


def snapshot(env, ps):
  return [list(env.cells(p)) for p in ps]


def unchanged(env, ps, snap, same=None):
  env.check("parents-unchanged", len(ps) == len(snap) and (
      same is None or all(a is b for a, b in zip(ps, same))))
  env.check("parents-unchanged", env.eq([list(env.cells(p)) for p in ps], snap))


def gaussian(env, label, out, base, n, mean, cov, width):
  """out = base + a draw of N(mean, cov); base is a list of rows."""
  if not width:
    ev = env.events("normal")
    env.check(label + "-draw", len(ev) == 1 and len(ev[0][1]) == n)
    if not (len(ev) == 1 and len(ev[0][1]) == n):
      return
    env.check(label + "-shape", tuple(out.shape) == (n,))
    for i, (m, s) in enumerate(ev[0][1]):
      env.check(label + "-mean", env.eq(m, mean))
      env.check(label + "-variance", env.and_(env.eq(s * s, cov), env.le(0, s)))
      env.check(label, env.eq(env.cells(out)[i], base[i] + ev[0][3][i]))
    return
  ev = env.events("mvn")
  env.check(label + "-draw", len(ev) == 1 and len(ev[0][3]) == n * width)
  if not (len(ev) == 1 and len(ev[0][3]) == n * width):
    return
  env.check(label + "-shape", tuple(out.shape) == (n, width))
  env.check(label + "-mean", env.eq(list(ev[0][1]), mean))
  env.check(label + "-variance", env.eq([list(r) for r in ev[0][2]], cov))
  draws = ev[0][4]
  for i, r in enumerate(env.rows(out)):
    for j, v in enumerate(r):
      env.check(label, env.eq(v, base[i][j] + draws[i * width + j]))


def dotp(a, b):
  s = 0
  for p, q in zip(a, b):
    s = s + p * q
  return s


_DIMS = [(1,), (2,), (1, 2), (2, 1, 1)]


@job("S03", quick=[dict(n=n, dims=d) for n, d in [
    (1, (1,)), (2, (2,)), (2, (1, 2)), (1, (2, 1, 1))]],
     thorough=[dict(n=3, dims=(2, 2, 2))],
     bounds="n <= 2 units (3 thorough), up to 3 parents of dimension <= 2")
def normal_cpd(env, n, dims):
  ps = parent_samples(env, n, dims)
  keep, snap = list(ps), snapshot(env, ps)
  betas = [env.real_vec(f"beta{i}.", d) for i, d in enumerate(dims)]
  mean, cov = env.real("mean"), env.real("cov", lo=0)
  out = env.m.scm.normal_cpd(ps, betas, mean, cov)
  base = [sum(dotp(env.rows(p)[i], env.cells(b)) for p, b in zip(ps, betas))
          for i in range(n)]
  gaussian(env, "normal", out, base, n, mean, cov, 0)
  unchanged(env, ps, snap, keep)


@job("S03", quick=[dict(kind=k, real=r) for k in (
    "normal", "transformed", "logistic") for r in (0, 1, None)],
     bounds="2 units; a binary integer parent with integer coefficients next to "
     "a real one, or two integer ones")
def integer_parents(env, kind, real):
  n = 2
  ps, betas = [], []
  for i in range(2):
    if i == real:
      ps.append(env.real_mat(f"p{i}.", n, 1))
      betas.append(env.real_vec(f"b{i}.", 1))
    else:
      ps.append(env.mat([[env.int(f"p{i}.{u}", 0, 1)] for u in range(n)],
                        integer=True))
      betas.append(env.vec([env.int(f"b{i}", -3, 3)], integer=True))
  snap = snapshot(env, ps)
  terms = [[env.rows(p)[u][0] * env.cells(b)[0] for p, b in zip(ps, betas)]
           for u in range(n)]
  scm = env.m.scm
  mean, cov = env.real("mean"), env.real("cov", lo=0)
  if kind == "normal":
    out, e = env.raises(scm.normal_cpd, ps, betas, mean, cov)
  elif kind == "transformed":
    out, e = env.raises(scm.transformed_normal_cpd, ps, betas,
                        [lambda v: v + 1, lambda v: 2 * v], mean, cov)
    terms = [[t[0] + 1, 2 * t[1]] for t in terms]
  else:
    out, e = env.raises(scm.logistic_linear_bernoulli_cpd, ps, betas)
  env.check("accepted", e is None)
  if e is not None:
    return
  base = [t[0] + t[1] for t in terms]
  if kind == "logistic":
    (v,) = env.events("binomial")
    for i, (k, p) in enumerate(v[1]):
      env.check("probability", env.and_(env.eq(k, 1), env.eq(
          p, 1 / (1 + env.exp(-base[i])))))
      env.check("returns-draws", env.eq(env.cells(out)[i], v[2][i]))
  else:
    gaussian(env, kind, out, base, n, mean, cov, 0)
  unchanged(env, ps, snap)


@job("S03", quick=[dict(n=1, dims=(2,), w=2), dict(n=2, dims=(1, 2), w=2)],
     thorough=[dict(n=3, dims=(2, 2), w=3)],
     bounds="n <= 2 units (3 thorough), output width 2 (3)")
def multivariate_normal_cpd(env, n, dims, w):
  ps = parent_samples(env, n, dims)
  keep, snap = list(ps), snapshot(env, ps)
  betas = [env.real_mat(f"beta{i}.", d, w) for i, d in enumerate(dims)]
  mean = env.reals("mean", w)
  cov = [[env.real(f"cov{min(i, j)}{max(i, j)}") if i <= j else None
          for j in range(w)] for i in range(w)]
  cov = [[cov[min(i, j)][max(i, j)] for j in range(w)] for i in range(w)]
  out = env.m.scm.normal_cpd(ps, betas, env.vec(mean), env.mat(cov))
  base = [[sum(dotp(env.rows(p)[i], [r[j] for r in env.rows(b)])
               for p, b in zip(ps, betas)) for j in range(w)] for i in range(n)]
  gaussian(env, "normal", out, base, n, mean, cov, w)
  unchanged(env, ps, snap, keep)


@job("S03", quick=[dict(n=n, dims=d, w=w) for n, d, w in [
    (1, (1,), 0), (2, (2, 1), 0), (2, (1, 2), 2)]],
     thorough=[dict(n=3, dims=(2, 2, 1), w=0)],
     bounds="n <= 2 units (3 thorough), up to 2 parents (3), arbitrary "
     "transformations")
def transformed_normal_cpd(env, n, dims, w):
  ps = parent_samples(env, n, dims)
  keep, snap = list(ps), snapshot(env, ps)
  betas = [env.real_mat(f"beta{i}.", d, w) if w else
           env.real_vec(f"beta{i}.", d) for i, d in enumerate(dims)]

  def trans(k):
    def f(v):
      cs = [env.fn(f"f{k}", (c,)) for c in env.cells(v)]
      return env.array(cs, tuple(v.shape))
    return f
  fns = [trans(k) for k in range(len(dims))]
  if w:
    mean = env.reals("mean", w)
    cov = [[1 if i == j else 0 for j in range(w)] for i in range(w)]
    out = env.m.scm.transformed_normal_cpd(ps, betas, fns, env.vec(mean),
                                           env.mat(cov))
    base = [[sum(env.fn(f"f{k}", (dotp(env.rows(p)[i], [
        r[j] for r in env.rows(b)]),)) for k, (p, b) in enumerate(
            zip(ps, betas))) for j in range(w)] for i in range(n)]
  else:
    mean, cov = env.real("mean"), env.real("cov", lo=0)
    out = env.m.scm.transformed_normal_cpd(ps, betas, fns, mean, cov)
    base = [sum(env.fn(f"f{k}", (dotp(env.rows(p)[i], env.cells(b)),))
                for k, (p, b) in enumerate(zip(ps, betas))) for i in range(n)]
  gaussian(env, "transformed", out, base, n, mean, cov, w)
  unchanged(env, ps, snap, keep)
  _, e = env.raises(env.m.scm.transformed_normal_cpd, ps, betas, fns[:-1],
                    mean, cov)
  env.check("length-mismatch-rejected", isinstance(e, ValueError))


@job("S03", quick=[dict(n=n, w=w) for n, w in [(1, 0), (2, 0), (2, 1), (1, 2),
                                               (2, 2)]] +
     [dict(n=2, w=1, form="vector"), dict(n=2, w=1, form="matrix"),
      dict(n=2, w=0, form="matrix"), dict(n=1, w=1, form="matrix")],
     thorough=[dict(n=3, w=3), dict(n=3, w=1, form="matrix")],
     bounds="n <= 2 units (3 thorough), width <= 2; mean and variance of one "
     "dimension as numbers, as a vector and a number, or as a vector and a "
     "matrix")
def add_gaussian_noise(env, n, w, form=None):
  x = env.real_mat("x", n, w) if w else env.real_vec("x", n)
  snap = snapshot(env, [x])
  if w < 2:
    mean, cov = env.real("mean"), env.real("cov", lo=0)
    out = env.m.scm.add_gaussian_noise(
        x, env.vec([mean]) if form else mean,
        env.mat([[cov]]) if form == "matrix" else cov)
    gaussian(env, "noise", out, env.cells(x), n, mean, cov, 0)
    _, e = env.raises(env.m.scm.add_gaussian_noise, x, env.mat([[0, 0]]), cov)
  else:
    mean = env.reals("mean", w)
    cov = [[env.real(f"c{min(i, j)}{max(i, j)}") if i == j else 0
            for j in range(w)] for i in range(w)]
    out = env.m.scm.add_gaussian_noise(x, env.vec(mean), env.mat(cov))
    gaussian(env, "noise", out, env.rows(x), n, mean, cov, w)
    _, e = env.raises(env.m.scm.add_gaussian_noise, x, env.vec(mean + [0]),
                      env.mat(cov))
  env.check("shape-mismatch-rejected", isinstance(e, ValueError))
  unchanged(env, [x], snap)


@job("S03", quick=[dict(n=n, dims=d, w=w) for n, d, w in [
    (1, (1,), 0), (2, (2, 1), 0), (2, (1, 2), 2), (1, (0, 2), 1)]],
     thorough=[dict(n=3, dims=(2, 0, 1), w=2)],
     bounds="n <= 2 units (3 thorough), up to 2 parents (3)")
def structural_equation(env, n, dims, w):
  ps = parent_samples(env, n, dims)
  keep, snap = list(ps), snapshot(env, ps)

  def f(x):
    return env.array([env.fn(f"f{j}", tuple(r)) for r in env.rows(x)
                      for j in range(w or 1)], (len(env.rows(x)), w or 1))
  flat = [[v for p in ps for v in (
      list(env.rows(p)[i]) if p.ndim == 2 else [env.cells(p)[i]])]
          for i in range(n)]
  base = [[env.fn(f"f{j}", tuple(r)) for j in range(w or 1)] for r in flat]
  if w:
    mean = env.reals("mean", w)
    cov = [[env.const(2) if i == j else 0 for j in range(w)] for i in range(w)]
    out = env.m.scm.structural_equation_with_noise(ps, f, env.vec(mean),
                                                   env.mat(cov))
  else:
    mean, cov = env.real("mean"), env.real("cov", lo=0)
    out = env.m.scm.structural_equation_with_noise(ps, f, mean, cov)
    base = [b[0] for b in base]
  gaussian(env, "structural", out, base, n, mean, cov, w)
  unchanged(env, ps, snap, keep)


@job("S03", quick=[dict(n=n, dims=d) for n, d in [
    (1, (1,)), (2, (2,)), (2, (1, 2))]],
     thorough=[dict(n=3, dims=(1, 2, 2))],
     bounds="n <= 2 units (3 thorough), up to 2 parents (3)")
def logistic_mechanisms(env, n, dims):
  ps = parent_samples(env, n, dims)
  keep, snap = list(ps), snapshot(env, ps)
  gs = [env.real_vec(f"g{i}.", d) for i, d in enumerate(dims)]
  out = env.m.scm.logistic_linear_bernoulli_cpd(ps, gs)
  arg = [sum(dotp(env.rows(p)[i], env.cells(g)) for p, g in zip(ps, gs))
         for i in range(n)]
  out2 = env.m.scm.logistic_bernoulli_cpd(
      ps, lambda p: env.vec([env.fn("h", tuple(r)) for r in env.rows(p[0])]))
  arg2 = [env.fn("h", tuple(r)) for r in env.rows(ps[0])]
  ev = env.events("binomial")
  env.check("one-draw-each", len(ev) == 2)
  for o, a, v in zip((out, out2), (arg, arg2), ev):
    env.check("draws", len(v[1]) == n and tuple(o.shape) == (n,))
    for i, (k, p) in enumerate(v[1]):
      env.check("probability", env.and_(env.eq(k, 1), env.eq(
          p, 1 / (1 + env.exp(-a[i])))))
      env.check("returns-draws", env.eq(env.cells(o)[i], v[2][i]))
  unchanged(env, ps, snap, keep)


@job("S03", quick=[dict(n=1, np_=1, pos=0), dict(n=2, np_=2, pos=0),
                   dict(n=2, np_=2, pos=1), dict(n=3, np_=1, pos=0)],
     thorough=[dict(n=3, np_=3, pos=1)],
     bounds="n <= 3 units, up to 2 parents (3 thorough), 2 distributions; the "
     "selector given as integers or floats")
def categorical_mechanism(env, n, np_, pos):
  sel = [env.int(f"s{i}", 0, 1) for i in range(n)]
  as_float = env.truth(env.bool("float"))
  sv = env.farray(sel, (n,)) if as_float else env.vec(sel, integer=True)
  ps = [env.real_vec(f"p{i}.", n) for i in range(np_ - 1)]
  ps.insert(pos, sv)
  keep, snap = list(ps), snapshot(env, ps)
  calls = []

  def dist(k):
    def f(m, parents):
      calls.append((k, m, list(parents), env.real("d")))
      return env.vec([calls[-1][3]])
    return f
  out = env.m.scm.categorical_conditioning(ps, pos, [dist(0), dist(1)])
  env.check("one-call-per-unit", len(calls) == n and len(env.cells(out)) == n)
  for i, (k, m, pp, v) in enumerate(calls):
    env.check("selected", env.eq(sel[i], k))
    env.check("one-sample", m == 1)
    env.check("other-parents", env.eq(pp, [
        snap[j][i] for j in range(np_) if j != pos]))
    env.check("value", env.eq(env.cells(out)[i], v))
  unchanged(env, ps, snap, keep)
  _, e = env.raises(env.m.scm.categorical_conditioning, list(keep), np_,
                    [dist(0), dist(1)])
  env.check("index-out-of-range-rejected", isinstance(e, ValueError))


@job("S03", quick=[dict(n=0), dict(n=2)], bounds="n <= 2")
def deterministic_mechanism(env, n):
  v = env.real("v")
  out = env.m.scm.deterministic_cpd(n, v)
  env.check("constant", env.eq(list(env.cells(out)), [v] * n))
