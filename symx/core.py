"""Path exploration: one Path object per execution, re-executed per prefix.

A path owns a z3 solver holding the path condition.  `branch` decides a
symbolic condition: if both outcomes are feasible the one agreeing with the
current model is taken and the other is queued as a new prefix.
"""
import time

import z3

from symx import ratfun

CTX = None  # the Path being executed (one per process)


class Unsupported(BaseException):
  """The code did something the symbolic domain does not model."""


class PathCut(BaseException):
  """The path is abandoned (assumption false, or a stated bound reached)."""


class Inconclusive(BaseException):
  """The solver or the budget gave no answer."""


def ctx():
  if CTX is None:
    raise Unsupported("symbolic value used outside a path")
  return CTX


class Stats:
  FIELDS = ("paths", "decisions", "queries", "solver_s", "unknown", "cut",
            "checks", "discharged", "trivial", "by_cases", "witness", "witness_ok",
            "witness_diverged")

  def __init__(self):
    for f in self.FIELDS:
      setattr(self, f, 0)

  def as_dict(self):
    return {f: getattr(self, f) for f in self.FIELDS}


class Path:
  """A single execution under a decision prefix."""

  mode = "sym"

  def __init__(self, prefix, stats, timeout_ms=20000, max_decisions=2000,
               deadline=None):
    self.prefix = list(prefix)
    self.decisions = []
    self.alternatives = []
    self.stats = stats
    self.timeout_ms = timeout_ms
    self.max_decisions = max_decisions
    self.deadline = deadline
    self.solver = z3.Solver()
    self.nonlinear = False
    self.model = None
    self.model_valid = False
    self.blind = 0      # how often no model was found in time
    self.pc = []
    self.pending = []   # (label, z3 expr of the property)
    self.failures = []  # (label, model)
    self.reached = {}
    self.inputs = {}    # name -> (kind, z3 var)
    self.funcs = {}     # name -> list of (args, var)
    self.observed = []
    self.notes = []
    self.counters = {}
    self.memo = {}      # memo for transcendental terms
    self.unknown_branch = False

  # ---- solver ----------------------------------------------------------
  def _check(self, *extra):
    t = time.time()
    r, m = self._solve(extra, self.timeout_ms)
    if r == z3.unknown:
      r, m = self._fallback(extra)
    self.stats.queries += 1
    self.stats.solver_s += time.time() - t
    if r == z3.unknown:
      self.stats.unknown += 1
    return r, m

  def _solve(self, extra, ms):
    if self.nonlinear:
      # The incremental solver can ignore its time limit on these.
      s = z3.Solver()
      s.set("timeout", ms)
      s.add(*self.pc, *extra)
      r = s.check()
      return r, s.model() if r == z3.sat else None
    s = self.solver
    s.set("timeout", ms)
    s.push()
    s.add(*extra)
    r = s.check()
    m = s.model() if r == z3.sat else None
    s.pop()
    return r, m

  def _fallback(self, extra):
    for mk in (lambda: z3.SolverFor("QF_NRA"),
               lambda: z3.Then("simplify", "purify-arith", "propagate-values",
                               "solve-eqs", "elim-uncnstr", "simplify",
                               "qfnra-nlsat").solver()):
      try:
        s = mk()
        s.set("timeout", self.timeout_ms)
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        if r != z3.unknown:
          return r, (s.model() if r == z3.sat else None)
      except z3.Z3Exception:
        continue
    return z3.unknown, None

  def add(self, expr):
    self.pc.append(expr)
    self.solver.add(expr)
    self.nonlinear = self.nonlinear or ratfun.nonlinear(expr)

  def fact(self, expr):
    """Adds a fact known true of every model (definition of a fresh symbol)."""
    self.add(expr)
    if self.model is not None and self.model_valid:
      v = self.model.eval(expr, model_completion=True)
      if not z3.is_true(v):
        self.model_valid = False

  def _side(self, cond):
    """Feasibility of one side of a branch."""
    if self.blind:
      pr = ratfun.Prover(self._quick, self.pc, self.increasing(), seconds=10)
      if pr.cheap(z3.Not(cond)):
        self.stats.queries += 1
        return z3.unsat, None
    r, m = self._quick(cond)
    if r == z3.unknown:
      pr = ratfun.Prover(self._quick, self.pc, self.increasing(), limit=12,
                         seconds=15)
      if pr.prove(z3.Not(cond)):
        return z3.unsat, None
      r, m = self._check(cond)
    return r, m

  def ensure_model(self, quick=False):
    if self.model is not None and self.model_valid:
      return True
    if quick and self.blind >= 2:
      return None
    r, m = self._quick() if quick else self._check()
    if quick and r == z3.unknown:
      self.blind += 1
    if r == z3.unsat:
      return False
    if r == z3.unknown:
      self.model = None
      return None
    self.model, self.model_valid = m, True
    return True

  # ---- branching -------------------------------------------------------
  def branch(self, expr):
    expr = z3.simplify(expr)
    if z3.is_true(expr):
      return True
    if z3.is_false(expr):
      return False
    i = len(self.decisions)
    if i < len(self.prefix):
      d = self.prefix[i]
      self.decisions.append(d)
      self.add(expr if d else z3.Not(expr))
      self.model_valid = False
      return d
    if i >= self.max_decisions:
      raise Inconclusive(f"more than {self.max_decisions} decisions on a path")
    if self.deadline and time.time() > self.deadline:
      raise Inconclusive("path time budget exhausted")
    ok = self.ensure_model(quick=True)
    if ok is False:
      raise PathCut("infeasible")
    d = None
    if ok:
      v = self.model.eval(expr, model_completion=True)
      if z3.is_true(v):
        d = True
      elif z3.is_false(v):
        d = False
    if d is None:
      # No usable model: test both sides.
      rt, mt = self._side(expr)
      rf, mf = self._side(z3.Not(expr)) if rt != z3.unsat else (
          z3.unknown, None)
      if rt == z3.unsat and rf == z3.unsat:
        raise PathCut("infeasible")
      if rt != z3.unsat and rf != z3.unsat:
        self.alternatives.append(self.decisions + [False])
        d, self.model = True, mt
      elif rt != z3.unsat:
        d, self.model = True, mt
      else:
        d, self.model = False, mf
      self.model_valid = self.model is not None
      if z3.unknown in (rt, rf):
        self.unknown_branch = True
    else:
      other = z3.Not(expr) if d else expr
      r, _ = self._side(other)
      if r != z3.unsat:
        self.alternatives.append(self.decisions + [not d])
        if r == z3.unknown:
          self.unknown_branch = True
    self.decisions.append(d)
    self.stats.decisions += 1
    self.add(expr if d else z3.Not(expr))
    return d

  def assume(self, expr):
    """Restricts the path to expr; flushes pending checks first."""
    self.flush()
    expr = z3.simplify(expr)
    if z3.is_true(expr):
      return
    if z3.is_false(expr):
      raise PathCut("assumption")
    self.add(expr)
    self.model_valid = False
    if len(self.decisions) >= len(self.prefix):
      ok = self.ensure_model()
      if ok is False:
        raise PathCut("assumption")

  # ---- properties ------------------------------------------------------
  def check(self, label, expr):
    self.reached[label] = self.reached.get(label, 0) + 1
    self.stats.checks += 1
    expr = z3.simplify(expr)
    if z3.is_true(expr):
      self.stats.trivial += 1
      self.stats.discharged += 1
      return
    self.pending.append((label, expr))

  def flush(self):
    """Decides all pending checks under the current path condition."""
    if not self.pending:
      return
    pend, self.pending = self.pending, []
    if len(self.decisions) < len(self.prefix):
      # Still inside the replayed prefix: these checks are decided on the
      # sibling path as well, but the path condition here is weaker, so
      # deciding them here too is merely redundant work.
      pass
    neg = z3.Or([z3.Not(e) for _, e in pend]) if len(pend) > 1 else z3.Not(
        pend[0][1])
    r, m = self._quick(neg)
    if r == z3.unsat:
      self.stats.discharged += len(pend)
      return
    for label, e in pend:
      r, m = self._quick(z3.Not(e))
      if r == z3.unknown:
        pr = ratfun.Prover(self._quick, self.pc, self.increasing(), seconds=max(
            60, 4 * self.timeout_ms / 1000))
        if pr.prove(e):
          self.stats.by_cases += 1
          r = z3.unsat
        else:
          r, m = self._check(z3.Not(e))
      if r == z3.unsat:
        self.stats.discharged += 1
      elif r == z3.unknown:
        raise Inconclusive(f"solver gave no answer on check {label}")
      else:
        self.failures.append((label, self.nice_models(z3.Not(e), m)))

  def increasing(self):
    """Values of strictly increasing functions: id -> (kind, argument)."""
    out = {}
    for k, t in self.memo.items():
      if isinstance(k, tuple) and k[0] in ("fn", "ppf"):
        for e in t:
          if len(e) == 2 and k[1] in ("sqrt", "log", "exp", "norm", "eigh"):
            out[e[1].get_id()] = (k, e[0])
    return out

  def _quick(self, *extra):
    """One solver call with a short limit."""
    t = time.time()
    r, m = self._solve(extra, min(self.timeout_ms, 2500))
    self.stats.queries += 1
    self.stats.solver_s += time.time() - t
    return r, m

  def nice_models(self, extra, m):
    """The counterexample, preceded by tamer ones when they exist."""
    out = []
    real_vars = [v for k, v in self.inputs.values() if k == "real"]
    rank = getattr(self, "margins", [])
    # values on a dyadic grid survive the trip to floats, so ties stay ties
    if len(real_vars) <= 60:
      grid = [z3.Int(f"grid!{i}") for i in range(len(real_vars))]
      cons = [z3.And(8 * v == z3.ToReal(g), g >= -80, g <= 80)
              for v, g in zip(real_vars, grid)]
      r, m2 = self._solve((extra, *cons), 4000)
      if r == z3.sat:
        out.append(m2)
    for bound in (10, 1000):
      cons = [z3.And(v <= bound, v >= -bound) for v in real_vars]
      r, m2 = self._check(extra, *cons, *rank)
      if r == z3.sat:
        out.append(m2)
        break
    out.append(m)
    return out


def explore(fn, prefixes, stats, *, timeout_ms=20000, time_budget=None,
            max_paths=None, on_path=None, max_decisions=2000, path_cls=Path,
            path_s=300):
  """Runs fn over every path extending the prefixes.

  Returns the prefixes left unexplored when a budget ran out.
  """
  global CTX
  work = [list(p) for p in prefixes]
  t0 = time.time()
  n = 0
  while work:
    if time_budget is not None and time.time() - t0 > time_budget and n:
      break
    if max_paths is not None and n >= max_paths:
      break
    prefix = work.pop()
    p = path_cls(prefix, stats, timeout_ms=timeout_ms,
                 max_decisions=max_decisions, deadline=time.time() + path_s)
    CTX = p
    n += 1
    stats.paths += 1
    exc = None
    cut = False
    try:
      fn(p)
      p.flush()
    except PathCut:
      cut = True
      stats.cut += 1
      p.flush()
    except (Inconclusive, Unsupported) as e:
      exc = e
    except Exception as e:  # pylint: disable=broad-except
      exc = e
      try:
        p.flush()
      except Inconclusive as e2:
        exc = e2
    finally:
      CTX = None
    work.extend(p.alternatives)
    if on_path is not None:
      CTX = p
      try:
        stop = on_path(p, exc, cut)
      finally:
        CTX = None
      if stop:
        break
  return work
