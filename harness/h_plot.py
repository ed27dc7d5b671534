"""What the plots show."""
from symx.run import job


class Spine:

  def set_visible(self, *a):
    pass


class Ax:
  """Notes what is drawn."""

  def __init__(self):
    self.lines, self.bands, self.surfaces = [], [], []
    self.spines = {k: Spine() for k in ("top", "right", "left", "bottom")}

  def plot(self, x, y, *a, **kw):
    self.lines.append((x, y, kw))
    return [None]

  def fill_between(self, x, y1, y2=0, *a, **kw):
    self.bands.append((x, y1, y2, kw))

  def plot_surface(self, x, y, z, **kw):
    self.surfaces.append((x, y, z))

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    return lambda *a, **k: None


def cells(env, x):
  return list(x) if isinstance(x, (list, tuple)) else list(env.cells(x))


SHAPES = [dict(arms=a, rounds=r, skip=s) for a, r, s in (
    (1, 3, 0), (2, 3, 1), (3, 4, 2), (2, 2, 5), (2, 3, None))]


@job("V01", quick=SHAPES, thorough=SHAPES + [
    dict(arms=4, rounds=6, skip=s) for s in (0, 1, 3)],
     bounds="1 to 3 arms, 2 to 4 rounds, any numbers, 0 to 5 points left out")
def results_plot(env, arms, rounds, skip):
  """Each arm's estimate and interval over the samples used so far."""
  m = env.m
  extra = env.choose("unplotted", [0, 1])
  all_arms = [m.arms.VarianceEstimatorArm(f"arm{i}", None, None)
              for i in range(arms + extra)]
  data = {k: {a: env.reals(f"{k}{i}_", rounds) for i, a in enumerate(all_arms)}
          for k in ("lo", "hi", "mid", "n")}
  cum = env.reals("cum", rounds)
  out = m.bandits.BanditData(
      {a: list(v) for a, v in data["lo"].items()},
      {a: list(v) for a, v in data["hi"].items()},
      {a: list(v) for a, v in data["mid"].items()},
      {a: list(v) for a, v in data["n"].items()}, list(cum), [all_arms[0]])
  ax = Ax()
  k = skip or 0
  plot = m.plotting_utils.plot_bandit_results
  kw = {} if skip is None else {"initial_points_to_ignore": skip}
  back = plot(ax, all_arms[:arms], out, **kw)
  env.check("returns-axis", back is ax)
  xs = cum[k:]
  env.check("x-is-samples", all(
      len(cells(env, e[0])) == len(xs) for e in ax.lines + ax.bands))
  env.check("x-is-samples", env.eq(
      [cells(env, e[0]) for e in ax.lines + ax.bands],
      [xs] * len(ax.lines + ax.bands)))
  named = [e for e in ax.lines if "label" in e[2]]
  env.check("one-named-line-per-arm", [e[2]["label"] for e in named] == [
      a.name for a in all_arms[:arms]])
  env.check("one-band-per-arm", len(ax.bands) == arms)
  for a, e, b in zip(all_arms, named, ax.bands):
    env.check("estimate", env.eq(cells(env, e[1]), data["mid"][a][k:]))
    lo, hi = cells(env, b[1]), cells(env, b[2])
    want = data["lo"][a][k:], data["hi"][a][k:]
    env.check("interval", env.or_(env.eq([lo, hi], list(want)),
                                  env.eq([hi, lo], list(want))))
  known = [data[s][a][k:] for s in ("lo", "hi", "mid")
           for a in all_arms[:arms]]
  for e in ax.lines:
    env.check("nothing-else", env.or_(*[
        env.eq(cells(env, e[1]), s) for s in known]))
  env.check("data-unchanged", env.and_(*[env.eq(
      [list(v) for v in have.values()], [list(data[s][a]) for a in all_arms])
      for have, s in ((out.lcb_by_arm, "lo"), (out.ucb_by_arm, "hi"),
                      (out.var_est_by_arm, "mid"))]))


@job("V01", bounds="the plotting grid, any ranges, any function")
def surface_plot(env):
  """Heights belong to the points they are drawn over."""
  ax = Ax()
  env.m.plotting_utils.plt.axes = lambda *a, **k: ax
  xl, xh, yl, yh = (env.real(k) for k in ("xl", "xh", "yl", "yh"))
  seen = []

  def f(pts):
    seen.append(env.rows(pts))
    return env.vec([float(i) for i in range(len(seen[0]))])

  env.m.plotting_utils.plot_3d_function(f, xl, xh, yl, yh)
  env.check("one-surface", len(ax.surfaces) == 1 and len(seen) == 1)
  x, y, z = [env.rows(a) for a in ax.surfaces[0]]
  n = len(x)
  env.check("grid", n >= 2 and len(y) == n and len(z) == n and n * len(
      x[0]) == len(seen[0]))
  pts = [(i, j) for i in range(n) for j in range(len(x[0]))]
  env.check("heights", env.eq(
      [list(seen[0][int(z[i][j])]) for i, j in pts],
      [[x[i][j], y[i][j]] for i, j in pts]))
  env.check("once-each", len({int(z[i][j]) for i, j in pts}) == len(pts))
  for a, b in ((xl, yl), (xl, yh), (xh, yl), (xh, yh)):
    env.check("corners", env.or_(*[
        env.eq([x[i][j], y[i][j]], [a, b])
        for i in (0, n - 1) for j in (0, len(x[0]) - 1)]))
