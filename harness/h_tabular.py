"""The tabular conditional distribution."""
from symx.run import job


def sample(env, name, n, d, nx=2):
  """n observations: x in 0..nx-1, z any d reals (d=0: plain numbers)."""
  x = [env.int(f"{name}.x{i}", 0, nx - 1) for i in range(n)]
  z = [[env.real(f"{name}.z{i}{j}") for j in range(max(d, 1))]
       for i in range(n)]
  return x, z


def arrays(env, x, z, d):
  return env.vec(x, integer=True), (
      env.mat(z) if d else env.vec([r[0] for r in z]))


def same(env, a, b):
  return env.truth(env.and_(*[env.eq(p, q) for p, q in zip(a, b)]))


def distinct_values(env, z):
  """The distinct z rows, decided on this path, with class numbers."""
  reps, cls = [], []
  for r in z:
    for k, q in enumerate(reps):
      if same(env, r, q):
        cls.append(k)
        break
    else:
      cls.append(len(reps))
      reps.append(r)
  return reps, cls


def ask(env, t, x, z, d):
  """P(z|x) for one pair."""
  p = t.predict(*arrays(env, [x], [z], d))
  return env.cells(p)[0]


def table(env, t, xs, zs, d):
  return [[ask(env, t, x, z, d) for z in zs] for x in xs]


def floats(env, x):
  return env.farray(x, (len(x),))


@job("T01", quick=[dict(n=n, d=d) for n, d in [(1, 0), (2, 0), (3, 0), (4, 0),
                                               (2, 1), (3, 2)]],
     thorough=[dict(n=5, d=0), dict(n=6, d=0), dict(n=4, d=2)],
     bounds="n <= 4 observations (6 thorough), binary x, z any reals of "
     "dimension <= 2, min_ratio_to_uniform any real >= 1",
     timeout_ms=60000)
def proper_distribution(env, n, d):
  x, z = sample(env, "s", n, d)
  ratio = env.real("ratio", lo=1)
  t = env.m.data.TabularCPD(ratio)
  t.fit(*arrays(env, x, z, d))
  check_table(env, t, x, z, d, (0, 1), ratio)


def check_table(env, t, x, z, d, xs, ratio):
  reps, cls = distinct_values(env, z)
  size = len(reps)
  env.check("support-size", t.support_size() == size)
  floor = 1 / (size * ratio)
  for v in xs:
    seen = [env.truth(env.eq(xi, v)) for xi in x]
    total = sum(seen)
    if not total:
      continue
    freq = [sum(1 for s, c in zip(seen, cls) if s and c == k)
            for k in range(size)]
    ps = [ask(env, t, v, r, d) for r in reps]
    env.check("sums-to-one", env.eq(sum(ps), 1))
    untouched = True
    for p, f in zip(ps, freq):
      env.check("at-least-floor", env.le(floor, p))
      env.check("at-most-one", env.le(p, 1))
      untouched = env.and_(untouched, env.le(floor * total, f))
    env.check("empirical-frequency", env.implies(untouched, env.and_(*[
        env.eq(p * total, f) for p, f in zip(ps, freq)])))
    for p, f in zip(ps, freq):
      for q, g in zip(ps, freq):
        if f <= g:
          env.check("order-kept", env.le(p, q))
    env.observe(f"p{v}", ps)


GIVEN = {
    # (x, z) pairs as digits
    "skewed": "00 00 00 00 00 00 01 01 02 03 13 13 13 12 10 14 20 24",
    "late-x": "10 10 10 10 11 11 12 00 01 02 03 20 20",
    "one-z": "00 10 20 00 10",
    "sparse": "00 11 22 33 44 01 02",
    "wide": "00 01 02 03 04 05 06 07 08 09 00 10 11 12 12",
}


@job("T01", quick=[dict(data=k, d=d) for k in GIVEN for d in (0, 2)],
     bounds="five given patterns of up to 18 observations over up to 5 x and 10 "
     "z values, the z values any distinct increasing reals of dimension 1 or 2",
     timeout_ms=60000)
def larger_tables(env, data, d):
  ratio = env.real("ratio", lo=1)
  zs, top = [], None
  for k in range(1 + max(int(p[1]) for p in GIVEN[data].split())):
    v = env.real(f"z{k}") if top is None else env.real(f"z{k}", gt=top)
    top = v
    zs.append([v] if not d else [env.const(3), v][:d])
  x = [int(p[0]) for p in GIVEN[data].split()]
  z = [zs[int(p[1])] for p in GIVEN[data].split()]
  t = env.m.data.TabularCPD(ratio)
  t.fit(*arrays(env, x, z, d))
  check_table(env, t, x, z, d, sorted(set(x)), ratio)


@job("T02", quick=[dict(n=n, m=m, d=d, nx=nx) for n, m, d, nx in [
    (1, 1, 0, 2), (2, 2, 0, 2), (1, 2, 1, 2), (2, 1, 2, 2), (2, 2, 0, 3)]],
     thorough=[dict(n=2, m=3, d=0, nx=2), dict(n=3, m=2, d=0, nx=2)],
     bounds="a fit to n <= 2 observations (3 thorough) followed by a fit to "
     "m <= 2 (3), x in {0,1,2}, z any reals of dimension <= 2, ratio any real "
     ">= 1")
def refit_is_fresh(env, n, m, d, nx):
  ratio = env.real("ratio", lo=1)
  old, new = sample(env, "old", n, d, nx), sample(env, "new", m, d, nx)
  t = env.m.data.TabularCPD(ratio)
  t.fit(*arrays(env, *old, d))
  qx = list(range(nx))
  table(env, t, qx, old[1], d)
  _, e = env.raises(t.fit, *arrays(env, *new, d))
  env.check("refit-accepted", e is None)
  if e is not None:
    return
  f = env.m.data.TabularCPD(ratio)
  f.fit(*arrays(env, *new, d))
  qz = new[1] + old[1]
  env.check("same-table", env.eq(table(env, t, qx, qz, d),
                                 table(env, f, qx, qz, d)))
  env.check("same-size", t.support_size() == f.support_size())
  env.check("n_units", t.n_units == m)
  env.check("support", support_is(env, t.z_support(), new[1]))
  env.check("support-size", t.support_size() == len(
      distinct_values(env, new[1])[0]))
  env.check("x-support", support_is(env, t.x_support(), [[v] for v in new[0]]))


def support_is(env, got, want):
  """Each wanted value exactly once, and nothing else."""
  got = [env.cells(env.np.array(g).reshape(-1)) for g in got]
  reps, _ = distinct_values(env, want)
  if len(got) != len(reps):
    return False
  return env.and_(*[env.or_(*[env.and_(*[env.eq(a, b) for a, b in zip(g, r)])
                              for g in got]) for r in reps])


@job("T02", quick=[dict(n=2, d=0), dict(n=3, d=0), dict(n=2, d=2)],
     thorough=[dict(n=4, d=0), dict(n=3, d=2)],
     bounds="n <= 3 observations (4 thorough), any reordering")
def order_and_encoding_do_not_matter(env, n, d):
  ratio = env.real("ratio", lo=1)
  x, z = sample(env, "s", n, d)
  # a rotation and a swap generate every reordering
  perm = env.choose("perm", ([*range(1, n), 0], [1, 0, *range(2, n)]))
  a, b, c = (env.m.data.TabularCPD(ratio) for _ in range(3))
  a.fit(*arrays(env, x, z, d))
  b.fit(*arrays(env, [x[i] for i in perm], [z[i] for i in perm], d))
  xf, zf = arrays(env, x, z, d)
  c.fit(env.farray(x, (n,)), zf)
  text = env.raises(str, a)
  env.check("prints", text[1] is None)
  qa = table(env, a, (0, 1), z, d)
  env.check("reordered", env.eq(qa, table(env, b, (0, 1), z, d)))
  env.check("float-fit", env.eq(qa, table(env, c, (0, 1), z, d)))
  fl = [[env.cells(a.predict(env.farray([v], (1,)),
                             arrays(env, [v], [r], d)[1]))[0] for r in z]
        for v in (0, 1)]
  env.check("float-query", env.eq(qa, fl))
  env.check("asking-again", env.eq(qa, table(env, a, (0, 1), z, d)))
  # a batched query answers each pair
  for v in (0, 1):
    pb = env.cells(a.predict(*arrays(env, [v] * n, z, d)))
    env.check("batched", env.eq(pb, qa[v]))
  # values never seen have probability zero
  new = [env.real(f"new{j}") for j in range(max(d, 1))]
  if not any(same(env, new, r) for r in z):
    env.check("unseen", env.eq([ask(env, a, v, new, d) for v in (0, 1)], [0, 0]))
    env.check("asking-again", env.eq(qa, table(env, a, (0, 1), z, d)))
    env.check("unseen-x", env.eq(ask(env, a, 7, new, d), 0))
    env.check("printed", env.raises(str, a) == text)
    env.check("asking-again", env.eq(qa, table(env, a, (0, 1), z, d)))
    env.check("support", support_is(env, a.z_support(), z))
    env.check("x-support", support_is(env, a.x_support(), [[v] for v in x]))
    env.check("support-size", a.support_size() == len(
        distinct_values(env, z)[0]))


@job("T02", quick=[dict(n=2, m=1), dict(n=1, m=2)], bounds="lengths 1 and 2")
def length_mismatch_rejected(env, n, m):
  t = env.m.data.TabularCPD(10)
  x, _ = sample(env, "a", n, 0)
  _, z = sample(env, "b", m, 0)
  _, e = env.raises(t.fit, env.vec(x, integer=True),
                    env.vec([r[0] for r in z]))
  env.check("ValueError", isinstance(e, ValueError))
