"""Normal forms of rational functions, and proofs of goals by cases.

Used where the solver is slow: an equation between rational functions is
brought to a common denominator and expanded; if-then-else conditions are
decided by the solver under the path condition and removed first.  What does
not vanish goes to the solver.  Denominators are non-zero on the path: a
division is only built after its divisor was decided to be non-zero.
"""
from fractions import Fraction
import time

import z3

DEBUG = 0
MAX_TERMS = 6000
_ORDER = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


class TooBig(Exception):
  pass


def _mul(p, q):
  if len(p) * len(q) > 40 * MAX_TERMS:
    raise TooBig
  out = {}
  for m, a in p.items():
    for n, b in q.items():
      k = _mono(m, n)
      v = out.get(k, 0) + a * b
      if v:
        out[k] = v
      else:
        out.pop(k, None)
  if len(out) > MAX_TERMS:
    raise TooBig
  return out


def _mono(m, n):
  if not m:
    return n
  if not n:
    return m
  d = dict(m)
  for a, e in n:
    d[a] = d.get(a, 0) + e
  return tuple(sorted(d.items()))


def _add(p, q, c=1):
  out = dict(p)
  for m, a in q.items():
    v = out.get(m, 0) + c * a
    if v:
      out[m] = v
    else:
      out.pop(m, None)
  return out


ONE = {(): Fraction(1)}


class Forms:
  """Normal forms over the atoms of one path."""

  def __init__(self, deadline=None):
    self.atoms = {}   # id -> expr
    self.memo = {}    # id -> (expr, form)
    self.deadline = deadline

  def atom(self, e):
    i = e.get_id()
    self.atoms[i] = e
    return ({((i, 1),): Fraction(1)}, {})

  def form(self, e):
    """(numerator, {denominator factor: exponent})."""
    i = e.get_id()
    r = self.memo.get(i)
    if r is None:
      r = self.memo[i] = (e, self._form(e))
    return r[1]

  def _form(self, e):
    if self.deadline and time.time() > self.deadline:
      raise TooBig
    if z3.is_rational_value(e):
      c = Fraction(e.numerator_as_long(), e.denominator_as_long())
      return ({(): c} if c else {}, {})
    if z3.is_int_value(e):
      c = e.as_long()
      return ({(): Fraction(c)} if c else {}, {})
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
      r = self.form(ch[0])
      for c in ch[1:]:
        r = self.plus(r, self.form(c))
      return r
    if k == z3.Z3_OP_SUB:
      r = self.form(ch[0])
      for c in ch[1:]:
        r = self.plus(r, self.form(c), -1)
      return r
    if k == z3.Z3_OP_UMINUS:
      return self.plus(({}, {}), self.form(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
      r = self.form(ch[0])
      for c in ch[1:]:
        r = self.times(r, self.form(c))
      return r
    if k == z3.Z3_OP_DIV and e.sort() == z3.RealSort():
      return self.times(self.form(ch[0]), self.inverse(self.form(ch[1])))
    if k == z3.Z3_OP_TO_REAL:
      c = ch[0]
      if c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL,
                             z3.Z3_OP_UMINUS) or z3.is_int_value(c):
        return self.form(c)
      return self.form(c) if z3.is_const(c) else self.atom(c)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
      n = ch[1].as_fraction()
      if n.denominator == 1 and 0 <= n <= 8:
        r = (ONE, {})
        b = self.form(ch[0])
        for _ in range(int(n)):
          r = self.times(r, b)
        return r
    return self.atom(e)

  def plus(self, a, b, c=1):
    (n, d), (m, f) = a, b
    if not m:
      return a
    if d == f:
      return self.reduced(_add(n, m, c), d)
    g = dict(d)
    for k, x in f.items():
      g[k] = max(g.get(k, 0), x)
    return self.reduced(_add(self.scale(n, g, d), self.scale(m, g, f), c), g)

  def scale(self, n, g, d):
    for k, x in g.items():
      for _ in range(x - d.get(k, 0)):
        n = _mul(n, dict(k))
    return n

  def reduced(self, n, d):
    return (n, d if n else {})

  def times(self, a, b):
    n = _mul(a[0], b[0])
    if not n:
      return ({}, {})
    d = dict(a[1])
    for k, x in b[1].items():
      d[k] = d.get(k, 0) + x
    return self.cancel(n, d)

  def cancel(self, n, d):
    """Cancels denominator factors that are single monomials."""
    out = {}
    for k, x in d.items():
      if len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
        a = k[0][0][0][0]
        while x and all(any(b == a for b, _ in m) for m in n):
          n = {tuple((b, e - (b == a)) for b, e in m if e - (b == a)): c
               for m, c in n.items()}
          x -= 1
      elif x and len(n) == len(k):
        # the numerator is a multiple of the factor
        q = self.ratio(n, dict(k))
        if q is not None:
          n, x = {(): q}, x - 1
      if x:
        out[k] = x
    return n, out

  def ratio(self, n, m):
    if n.keys() != m.keys():
      return None
    q = None
    for k, c in n.items():
      r = c / m[k]
      if q is None:
        q = r
      elif q != r:
        return None
    return q

  def inverse(self, a):
    n, d = a
    if not n:
      raise TooBig
    top = ONE
    for k, x in d.items():
      for _ in range(x):
        top = _mul(top, dict(k))
    # split a common monomial off, and make the factor monic
    common = None
    for m in n:
      dm = dict(m)
      common = dm if common is None else {
          b: min(e, dm[b]) for b, e in common.items() if b in dm}
    den = {}
    rest = {}
    for m, c in n.items():
      rest[tuple((b, e - common.get(b, 0)) for b, e in m
                 if e - common.get(b, 0))] = c
    for b, e in common.items():
      den[((((b, 1),), Fraction(1)),)] = e
    lead = rest[max(rest)]
    if len(rest) > 1:
      key = tuple(sorted((m, c / lead) for m, c in rest.items()))
      den[key] = den.get(key, 0) + 1
    return self.cancel({m: c / lead for m, c in top.items()}, den)

  def expr(self, n):
    """The polynomial as a z3 term."""
    ts = []
    for m, c in n.items():
      t = [z3.RealVal(str(c))]
      for a, e in m:
        x = self.atoms[a]
        if x.sort() == z3.IntSort():
          x = z3.ToReal(x)
        t += [x] * e
      ts.append(z3.Product(t) if len(t) > 1 else t[0])
    return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))


def difference(a, b, forms=None):
  """Numerator of a - b over a common denominator (None: too big)."""
  f = forms or Forms()
  try:
    return f.plus(f.form(a), f.form(b), -1)[0], f
  except TooBig:
    return None, f


_SMALL = {}


def same(a, b):
  """Equal as rational functions (False: unknown)."""
  if a.eq(b):
    return True
  if not (nonlinear(a) or nonlinear(b)):
    return False
  try:
    f = Forms(time.time() + 2)
    return not f.plus(f.form(a), f.form(b), -1)[0]
  except TooBig:
    return False


def nonlinear(e):
  todo, seen, n = [e], set(), 0
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    n += 1
    if n > 400:
      return True
    if z3.is_app(x):
      k = x.decl().kind()
      if k == z3.Z3_OP_DIV or k == z3.Z3_OP_POWER:
        return True
      if k == z3.Z3_OP_MUL and sum(
          not z3.is_rational_value(c) for c in x.children()) > 1:
        return True
      todo += x.children()
  return False


# ---------------------------------------------------------------------------
def conditions(e):
  """Innermost conditions of the if-then-else terms below e."""
  out, seen = [], set()

  def walk(x):
    """True if x contains an ite."""
    i = x.get_id()
    if i in seen:
      return has.get(i, False)
    seen.add(i)
    h = False
    for c in x.children():
      h |= walk(c)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
      c = x.arg(0)
      if not has.get(c.get_id(), False):
        out.append(c)
      h = True
    has[i] = h
    return h
  has = {}
  walk(e)
  return out


def _vars(e, memo):
  i = e.get_id()
  r = memo.get(i)
  if r is None:
    if z3.is_const(e):
      r = frozenset([i]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else (
          frozenset())
    else:
      r = frozenset().union(*[_vars(c, memo) for c in e.children()])
    r = memo[i] = (e, r)  # keeps e, and with it its id, alive
  return r[1]


def definitions(facts):
  """Equations v == t among the facts as a substitution."""
  subs, memo = [], {}
  for f in facts:
    todo = [f]
    while todo:
      g = todo.pop()
      if z3.is_and(g):
        todo += g.children()
      elif z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
        for a, b in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
          if subs:
            a, b = z3.substitute(a, *subs), z3.substitute(b, *subs)
          if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and (
              a.get_id() not in _vars(b, memo)):
            subs = [(x, z3.substitute(t, (a, b))) for x, t in subs] + [(a, b)]
            break
  return subs


class Prover:
  """Proves goals under a path condition; check(*exprs) asks the solver."""

  def __init__(self, check, facts=(), defs=None, limit=200, seconds=60):
    self.check = check
    self.defs = defs or {}
    self.depth = 0
    self.vmemo = {}
    self.known = {}
    self.linear = None
    self.all = list(facts)
    self.facts = [f for f in facts if z3.is_eq(f) or z3.is_and(f)]
    self.left = limit
    self.deadline = time.time() + seconds

  def prove(self, goal, extra=()):
    """True (proved), False (refuted by the solver) or None."""
    goal = z3.simplify(goal)
    if z3.is_true(goal):
      return True
    if time.time() > self.deadline or self.left <= 0:
      return None
    if z3.is_not(goal):
      g = goal.arg(0)
      if z3.is_and(g):
        return self.clause([z3.Not(c) for c in g.children()], extra)
      if z3.is_or(g):
        return self.each([z3.Not(c) for c in g.children()], extra)
      if z3.is_not(g):
        return self.prove(g.arg(0), extra)
      if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() and not conditions(
          g):
        x, y = g.children()
        return (self.order(x > y, extra, last=True) or
                self.order(x < y, extra, last=True) or self.ask(goal, extra))
      if z3.is_app(g) and g.decl().kind() in _ORDER:
        # simplify writes a < b as not b <= a
        x, y = g.children()
        goal = {z3.Z3_OP_LE: x > y, z3.Z3_OP_LT: x >= y, z3.Z3_OP_GE: x < y,
                z3.Z3_OP_GT: x <= y}[g.decl().kind()]
    if z3.is_and(goal):
      return self.each(goal.children(), extra)
    if z3.is_or(goal):
      return self.clause(goal.children(), extra)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
      c, a, b = goal.children()
      return self.each([z3.Or(z3.Not(c), a), z3.Or(c, b)], extra)
    conds = conditions(goal)
    if conds:
      return self.split(goal, conds[0], extra)
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
      return self.equation(goal, extra)
    if z3.is_app(goal) and goal.decl().kind() in _ORDER and goal.arg(
        0).sort() == z3.RealSort():
      return self.order(goal, extra)
    return self.ask(goal, extra)

  def cheap(self, goal):
    """Proof from signs and orders alone."""
    goal = z3.simplify(goal)
    if z3.is_not(goal) and z3.is_eq(goal.arg(0)):
      x, y = goal.arg(0).children()
      return x.sort() == z3.RealSort() and bool(
          self.deeper(x > y, ()) or self.deeper(x < y, ()))
    return self.deeper(goal, ())

  def order(self, goal, extra, last=False):
    """An inequality, from the signs and the order of its atoms alone."""
    k = goal.decl().kind()
    a, b = goal.arg(0), goal.arg(1)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
      a, b = b, a
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    f = Forms(self.deadline)
    try:
      n, d = f.plus(f.form(a), f.form(b), -1)
    except TooBig:
      return self.ask(goal, extra)
    if not n and not strict:
      return True
    flip = False
    for fac, e in d.items():
      if e % 2:
        g = f.expr(dict(fac))
        if self.holds(g > 0, extra):
          continue
        if self.holds(g < 0, extra):
          flip = not flip
          continue
        return self.ask(goal, extra)
    p = f.expr(n)
    p = -p if flip else p
    want = p > 0 if strict else p >= 0
    ids = sorted({i for m in n for i, _ in m})
    xs = [f.atoms[i] for i in ids]
    xs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in xs]
    if len(xs) <= 8 and self.from_order(xs, want, extra):
      return True
    if last:
      return None
    r = self.ask(want, extra)
    return r if r is not None or last else self.ask(goal, extra)

  def holds(self, c, extra, cheap=False):
    """c follows; first from the facts about its own variables alone."""
    key = (c.sexpr(), tuple(e.get_id() for e in extra), cheap)
    if key not in self.known:
      # extra is kept so that its ids stay taken
      self.known[key] = (self._holds(c, extra, cheap), tuple(extra))
    return self.known[key][0]

  def _holds(self, c, extra, cheap):
    vs = _vars(c, self.vmemo)
    if self.linear is None:
      self.linear = [(f, _vars(f, self.vmemo)) for f in self.all
                     if not nonlinear(f)]
    own = [f for f, v in self.linear if v <= vs]
    own += [f for f in extra if _vars(f, self.vmemo) <= vs]
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*own, z3.Not(c))
    if s.check() == z3.unsat:
      return True
    return not cheap and time.time() < self.deadline and self.check(
        *extra, z3.Not(c))[0] == z3.unsat

  def argument(self, x):
    """(kind, argument) of a monotone function's value."""
    return self.defs.get(x.get_id())

  def from_order(self, xs, want, extra):
    """Does want follow from sign and pairwise order of xs?"""
    known = []

    def done():
      s = z3.SolverFor("QF_NRA")
      s.set("timeout", 3000)
      s.add(z3.Not(want), *known)
      r = s.check()
      if DEBUG: print("  "*self.depth, want, known, r)
      return r == z3.unsat
    pairs = [(x, y) for i, x in enumerate(xs) for y in xs[:i]]
    for cheap in (True, False):
      if self.depth and not cheap:
        return False
      for x, y in pairs:
        dx, dy = self.argument(x), self.argument(y)
        if dx and dy and dx[0] == dy[0] and dx[0][1] != "eigh":
          # the functions are increasing: compare their arguments
          p, q = dx[1], dy[1]
          for g, c in ((p < q, x < y), (q < p, y < x), (p <= q, x <= y),
                       (q <= p, y <= x)):
            g = z3.simplify(g)
            if z3.is_true(g) or (cheap and not z3.is_false(g) and
                                 self.depth < 4 and self.deeper(g, extra)):
              known.append(c)
              break
      for x in xs:
        f = self.argument(x)
        if f and f[0][1] == "log" and cheap and self.depth < 4:
          for g, c in ((f[1] > 1, x > 0), (f[1] < 1, x < 0)):
            if self.deeper(z3.simplify(g), extra):
              known.append(c)
              break
          continue
        if f and f[0][1] in ("exp", "sqrt"):
          if cheap:
            pos = f[0][1] == "exp" or (self.depth < 4 and self.deeper(
                z3.simplify(f[1] > 0), extra))
            known.append(x > 0 if pos else x >= 0)
          continue
        if f and f[0][1] == "eigh" and cheap and self.depth < 4:
          if all(self.deeper(z3.simplify(g > 0), extra) for g in f[1]):
            known.append(x > 0)
          continue
        for c in (x > 0, x < 0, x >= 0, x <= 0):
          if self.holds(c, extra, cheap):
            known.append(c)
            break
      if done():
        return True
      for x in xs:
        for c in (x < 1, x > 1, x <= 1, x >= 1):
          if not self.argument(x) and self.holds(c, extra, cheap):
            known.append(c)
            break
      for x, y in pairs:
        if not self.argument(x) and not self.argument(y):
          for c in (x < y, y < x, x <= y, y <= x):
            if self.holds(c, extra, cheap):
              known.append(c)
              break
      if done():
        return True
    return False

  def deeper(self, goal, extra):
    self.depth += 1
    try:
      if z3.is_true(goal):
        return True
      if z3.is_not(goal):
        a = goal.arg(0)
        k = a.decl().kind()
        flip = {z3.Z3_OP_LE: lambda x, y: x > y, z3.Z3_OP_LT: lambda x, y:
                x >= y, z3.Z3_OP_GE: lambda x, y: x < y, z3.Z3_OP_GT:
                lambda x, y: x <= y}.get(k)
        if flip is None:
          return False
        goal = flip(*a.children())
      if goal.decl().kind() not in _ORDER:
        return False
      return self.order(goal, extra, last=True) is True
    finally:
      self.depth -= 1

  def ask(self, goal, extra):
    self.left -= 1
    r, _ = self.check(*extra, z3.Not(goal))
    return True if r == z3.unsat else False if r == z3.sat else None

  def each(self, goals, extra):
    out = True
    for g in goals:
      r = self.prove(g, extra)
      if r is False:
        return False
      if r is None:
        out = None
    return out

  def clause(self, lits, extra):
    eqs = [i for i, l in enumerate(lits) if z3.is_eq(l) and
           l.arg(0).sort() == z3.RealSort()]
    k = eqs[-1] if eqs else len(lits) - 1
    rest = [z3.simplify(z3.Not(l)) for i, l in enumerate(lits) if i != k]
    r, _ = self.check(*extra, *rest)
    if r == z3.unsat:
      return True
    return self.prove(lits[k], tuple(extra) + tuple(rest))

  def split(self, goal, c, extra):
    out = True
    for val, lit in ((True, c), (False, z3.Not(c))):
      self.left -= 1
      r, _ = self.check(*extra, lit)
      if r == z3.unsat:
        continue
      g = z3.substitute(goal, (c, z3.BoolVal(val)))
      q = self.prove(g, tuple(extra) + (lit,))
      if q is False:
        return False
      if q is None:
        out = None
    return out

  def equation(self, goal, extra):
    a, b = goal.arg(0), goal.arg(1)
    n, f = difference(a, b, Forms(self.deadline))
    if n is not None and not n:
      return True
    for hyp in (extra, tuple(extra) + tuple(self.facts)):
      subs = definitions(hyp)
      if not subs:
        continue
      a2, b2 = z3.substitute(a, *subs), z3.substitute(b, *subs)
      n2, f2 = difference(a2, b2, Forms(self.deadline))
      if n2 is not None:
        if not n2:
          return True
        n, f = n2, f2
    if n is not None and len(n) < 200:
      r = self.ask(f.expr(n) == 0, extra)
      if r is not None:
        return r
    return self.ask(goal, extra)
