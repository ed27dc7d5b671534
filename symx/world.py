"""The two worlds a harness runs in: symbolic, and replay on the real code.

Both load the modules of /repo/causal_effect_bandits fresh from source for
every run and offer the same API (see Env at the end).
"""
import ast
import builtins
import hashlib
import math
import os
import sys
import types

import numpy as np
import z3

from symx import core
from symx import ratfun
from symx import nparr as N
from symx import shims
from symx import values as V
from symx.core import Inconclusive, PathCut, Unsupported
from symx.values import Fraction, SymBool, SymNum

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "causal_effect_bandits"


# ---------------------------------------------------------------------------
# source loading
class _Rewrite(ast.NodeTransformer):
  """`/` becomes exact division, float literals exact constants."""

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Div):
      return ast.copy_location(ast.Call(
          ast.Name("__sx_div__", ast.Load()), [node.left, node.right], []), node)
    return node

  def visit_AugAssign(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Div):
      load = ast.parse(ast.unparse(node.target), mode="eval").body
      for n in ast.walk(load):
        ast.copy_location(n, node)
      load = self.visit(load)
      return ast.copy_location(ast.Assign([node.target], ast.Call(
          ast.Name("__sx_idiv__", ast.Load()), [load, node.value], [])), node)
    return node

  def visit_Constant(self, node):
    if isinstance(node.value, float) and not node.value.is_integer():
      return ast.copy_location(ast.Call(
          ast.Name("__sx_lit__", ast.Load()),
          [ast.Constant(repr(node.value))], []), node)
    return node

  def visit_JoinedStr(self, node):
    return node

  def visit_MatchValue(self, node):
    return node


def sx_div(a, b):
  if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
    return N.apply_uf("divide", (a, b))
  return V.pydiv(a, b)


def sx_idiv(a, b):
  if isinstance(a, N.SymArr):
    N.dispatch_ufunc(np.true_divide, "__call__", (a, b), {"out": (a,)})
    return a
  return sx_div(a, b)


_LIT = {}


def sx_lit(s):
  r = _LIT.get(s)
  if r is None:
    r = _LIT[s] = SymNum(Fraction(s), False)
  return r


_CODE = {}


def _compiled(path, sym):
  with open(path, "rb") as f:
    src = f.read()
  key = (path, sym, hashlib.sha1(src).digest())
  code = _CODE.get(key)
  if code is None:
    tree = ast.parse(src, path)
    if sym:
      tree = ast.fix_missing_locations(_Rewrite().visit(tree))
    code = _CODE[key] = compile(tree, path, "exec")
  return code


class Loader:
  """A private module registry over the current source."""

  def __init__(self, world):
    self.world = world
    self.mods = {}
    self.shims = {}
    sym = world.sym
    self.shims.update(shims.make_sklearn(world))
    self.shims.update(shims.make_absl())
    self.shims.update(shims.make_logging())
    self.shims.update(shims.make_matplotlib())
    if sym:
      self.shims.update(shims.make_scipy())
      self.shims["math"] = shims.make_math()
    self.shims["numpy"] = world.np
    self.shims["numpy.random"] = world.np.random
    if sym:
      self.shims["numpy.linalg"] = world.np.linalg
    b = dict(vars(builtins))
    b["__import__"] = self._import
    b["print"] = lambda *a, **k: None
    if sym:
      b.update(max=V.sx_max, min=V.sx_min, any=V.sx_any, all=V.sx_all,
               sum=V.sx_sum, float=V.SxFloat, int=V.SxInt, bool=V.SxBool,
               __sx_div__=sx_div, __sx_idiv__=sx_idiv, __sx_lit__=sx_lit)
    self.builtins = b

  def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
    if level:
      base = (globals or {}).get("__package__") or PKG
      for _ in range(level - 1):
        base = base.rpartition(".")[0]
      name = f"{base}.{name}" if name else base
    root = name.split(".")[0]
    if root == PKG:
      m = self.load(name)
      if fromlist:
        for f in fromlist:
          if f != "*" and name == PKG and not hasattr(m, f):
            self.load(f"{PKG}.{f}")
        return m
      return self.load(PKG)
    if name in self.shims:
      m = self.shims[name]
      if fromlist:
        return m
      return self.shims.get(root, m)
    if root in self.shims and root != "logging":
      real = builtins.__import__(name, globals, locals, fromlist, 0)
      if self.world.sym and root in ("numpy",):
        return real if fromlist else self.shims[root]
      return shims.PermissiveModule(name) if fromlist else self.shims[root]
    return builtins.__import__(name, globals, locals, fromlist, 0)

  def load(self, name):
    m = self.mods.get(name)
    if m is not None:
      return m
    rel = name.split(".")
    path = os.path.join(REPO, *rel)
    if os.path.isdir(path):
      m = types.ModuleType(name)
      m.__path__ = [path]
      m.__package__ = name
      m.__builtins__ = self.builtins
      self.mods[name] = m
      if name != PKG:
        init = os.path.join(path, "__init__.py")
        if os.path.exists(init):
          exec(_compiled(init, self.world.sym), m.__dict__)  # pylint: disable=exec-used
      else:
        m.__getattr__ = lambda n: self._pkg_attr(n)
      return m
    path += ".py"
    if not os.path.exists(path):
      raise ModuleNotFoundError(f"No module named '{name}'", name=name)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name.rpartition(".")[0]
    m.__builtins__ = self.builtins
    m.__dict__["__builtins__"] = self.builtins
    self.mods[name] = m
    saved = sys.modules.get(name)
    sys.modules[name] = m  # dataclasses and typing look modules up by name
    try:
      exec(_compiled(path, self.world.sym), m.__dict__)  # pylint: disable=exec-used
    except BaseException:
      self.mods.pop(name, None)
      raise
    finally:
      if saved is None:
        sys.modules.pop(name, None)
      else:
        sys.modules[name] = saved
    par, _, leaf = name.rpartition(".")
    if par:
      setattr(self.load(par), leaf, m)
    return m

  def _pkg_attr(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    p = os.path.join(REPO, PKG, n)
    if os.path.exists(p + ".py") or os.path.isdir(p):
      return self.load(f"{PKG}.{n}")
    raise AttributeError(n)


class Mods:
  """env.m.arms, env.m.data, ..."""

  def __init__(self, loader):
    self._l = loader

  def __getattr__(self, n):
    return self._l.load(f"{PKG}.{n}")


# ---------------------------------------------------------------------------
class _SameDraws:
  """Runs of one computation on the same random numbers."""

  def __init__(self, env, tag):
    self.env, self.tag = env, tag

  def __enter__(self):
    self.mod = self.env.np.random
    self.saved = self.mod.get_state()
    self.mod.seed(f"twin{self.tag}")

  def __exit__(self, *exc):
    self.mod.set_state(self.saved)


class Env:
  """API for harnesses; see SymEnv and ReplayEnv for the two meanings."""

  def __init__(self):
    self.trace = []
    self.observed = []
    self.counters = {}
    self._aliases = {}
    self._draws = {}
    self._pins = ()
    self._events = 0
    # shuffles only keep, reverse or rotate what they are given; "one": in turn
    self.few_orders = False
    self.fixed_masks = 0  # draws with replacement take turns when positive
    self.perm_calls = 0
    rnd = shims.RandomModule(self)
    self.np = shims.NumpyProxy(rnd) if self.sym else shims.ReplayNumpy(rnd)
    self.loader = Loader(self)
    self.m = Mods(self.loader)
    self.sk = self.loader.shims["sklearn"]

  # names -------------------------------------------------------------
  def uniq(self, name):
    k = self.counters.get(name, 0)
    self.counters[name] = k + 1
    return name if k == 0 else f"{name}~{k}"

  def pin(self, *prefixes):
    """Generators whose tag starts so give some fixed draws, not any draws."""
    self._pins += prefixes

  def pinned(self, name):
    return bool(self._pins) and name.startswith(self._pins)

  def pinned_unit(self, name):
    """A fixed number in [0, 1)."""
    h = int(hashlib.sha1(name.encode()).hexdigest()[:4], 16) % 1024
    return self.number(Fraction(h, 1024))

  def draw(self, name, lo=None, hi=None):
    """A random draw: the same generator state gives the same value."""
    key = (name, lo, hi)
    if key not in self._draws and self.pinned(name):
      u = self.pinned_unit(name)
      if lo is None:
        self._draws[key] = u if name.endswith(".u") else 4 * u - 2
      else:
        self._draws[key] = lo + int(u * (hi + 1 - lo))
    if key not in self._draws:
      self._draws[key] = (self.real(name) if lo is None else
                          self.int(name, lo, hi))
    return self._draws[key]

  def same_draws(self, tag=""):
    """Context: blocks with the same tag see the same random draws."""
    return _SameDraws(self, tag)

  def reals(self, name, n, **kw):
    return [self.real(f"{name}{i}", **kw) for i in range(n)]

  def vec(self, cells, integer=False):
    return self.array(list(cells), (len(cells),), integer)

  def mat(self, rows, ncols=None, integer=False):
    r = [list(x) for x in rows]
    nc = len(r[0]) if r else ncols
    return self.array([c for x in r for c in x], (len(r), nc), integer)

  def real_vec(self, name, n, **kw):
    return self.vec(self.reals(name, n, **kw))

  def real_mat(self, name, n, d, **kw):
    return self.array(self.reals(name, n * d, **kw), (n, d))

  def observe(self, name, v):
    self.observed.append((name, v))

  def raises(self, fn, *a, **k):
    """(value, None) or (None, exception)."""
    try:
      return fn(*a, **k), None
    except Exception as e:  # pylint: disable=broad-except
      return None, e

  def cut(self, why=""):
    raise PathCut(why)

  def events(self, kind):
    return [t for t in self.trace if t[0] == kind]

  # predictor identity --------------------------------------------------
  def fit_event(self, sig, x, y, w):
    return self.named((sig, self.key(x), self.key(y), self.key(w)), "fit")

  def cells(self, a):
    if isinstance(a, np.ndarray):
      return list(a.view(np.ndarray).reshape(-1)) if isinstance(
          a, N.SymArr) else list(a.reshape(-1))
    return list(a)

  def rows(self, a):
    b = a.view(np.ndarray) if isinstance(a, N.SymArr) else a
    return [list(r) for r in b]

  # properties ----------------------------------------------------------
  def check_all(self, label, conds):
    self.check(label, self.and_(*conds))


def _zkey(x):
  if isinstance(x, np.ndarray):
    return ("arr", x.shape, tuple(_zkey(e) for e in (
        x.view(np.ndarray) if isinstance(x, N.SymArr) else x).reshape(-1)))
  if isinstance(x, (list, tuple)):
    return tuple(_zkey(e) for e in x)
  if isinstance(x, SymNum):
    return str(x.v) if x.const() else x.v.sexpr()
  if isinstance(x, SymBool):
    return x.e.sexpr()
  if isinstance(x, V._NUMTYPES):  # pylint: disable=protected-access
    f = float(x)
    return "nan" if math.isnan(f) else str(V.frac_of_float(f)) if math.isfinite(
        f) else str(f)
  if x is None or isinstance(x, str):
    return repr(x)
  if hasattr(x, "_sig"):
    return x._sig()  # pylint: disable=protected-access
  return f"<{type(x).__name__}>"


class SymEnv(Env):
  sym = True

  def __init__(self, path):
    self.p = path
    self.events_alias = []
    super().__init__()

  # inputs ----------------------------------------------------------------
  def real(self, name, lo=None, hi=None, gt=None, lt=None):
    name = self.uniq(name)
    v = z3.Real(name)
    self.p.inputs[name] = ("real", v)
    for b, f in ((lo, lambda x, b: x <= v), (hi, lambda x, b: v <= x),
                 (gt, lambda x, b: x < v), (lt, lambda x, b: v < x)):
      if b is not None:
        self.p.fact(f(V.lift(b).z(), b))
    return SymNum(v)

  def int(self, name, lo, hi):
    name = self.uniq(name)
    v = z3.Int(name)
    self.p.inputs[name] = ("int", v)
    self.p.fact(z3.And(v >= lo, v <= hi))
    if lo == hi:
      return SymNum(Fraction(lo), True)
    return SymNum(v, True)

  def bool(self, name):
    name = self.uniq(name)
    v = z3.Bool(name)
    self.p.inputs[name] = ("bool", v)
    return SymBool(v)

  def choose(self, name, options):
    """One of the options, each explored."""
    options = list(options)
    name = self.uniq(name)
    v = z3.Int(name)
    self.p.inputs[name] = ("int", v)
    self.p.fact(z3.And(v >= 0, v < len(options)))
    for i in range(len(options) - 1):
      if self.p.branch(v == i):
        return options[i]
    return options[-1]

  def ext(self, name, lo=None):
    """A real or +infinity (decided only where the code asks)."""
    n2 = self.uniq(name + ".inf")
    b = z3.Bool(n2)
    self.p.inputs[n2] = ("bool", b)
    r = self.real(name, lo=lo)
    return SymNum(r.v, False, b)

  def fn(self, name, args, lo=None, hi=None):
    """Value of an arbitrary function at args (congruent)."""
    args = [V.lift(a) for a in args]
    zs = []
    for a in args:
      if isinstance(a, SymNum) and a.pinf is not None:
        a = a.finite()
      if isinstance(a, float):
        raise Unsupported("uninterpreted function at a non-finite point")
      zs.append(z3.simplify(a.z()))
    table = self.p.funcs.setdefault(name, [])
    facts = []
    for old, r in table:
      if len(old) == len(zs) and all(
          ratfun.same(x, y) for x, y in zip(old, zs)):
        return SymNum(r)
    v = z3.Real(f"{name}({len(table)})")
    for old, r in table:
      eqs = []
      apart = False
      for x, y in zip(old, zs):
        e = z3.simplify(x == y)
        if z3.is_false(e):
          apart = True
          break
        if not z3.is_true(e):
          eqs.append(e)
      if not apart:
        facts.append(z3.Implies(z3.And(eqs), v == r) if eqs else v == r)
    if lo is not None:
      facts.append(v >= lo)
    if hi is not None:
      facts.append(v <= hi)
    for f in facts:
      self.p.fact(f)
    table.append((zs, v))
    return SymNum(v)

  def named(self, key, prefix):
    k = self._events
    self._events += 1
    nm = self._aliases.get(key)
    if nm is None:
      nm = self._aliases[key] = f"{prefix}{len(self._aliases)}"
    self.events_alias.append(nm)
    del k
    return nm

  def key(self, x):
    return _zkey(x)

  def number(self, x):
    return SymNum(x)

  def numeric(self):
    """exp of a known number is taken to be its floating-point value."""
    self.p.memo["numeric"] = True

  def const(self, x):
    return SymNum(Fraction(str(x)) if not isinstance(x, Fraction) else x)

  def array(self, cells, shape, integer=False):
    o = np.empty(shape, dtype=object)
    flat = o.reshape(-1)
    for i, c in enumerate(cells):
      flat[i] = N.norm(c)
      if integer:
        flat[i] = V.astype(flat[i], int)
      elif isinstance(flat[i], SymNum) and flat[i].const() and False:
        pass
    return N.promote(o.view(N.SymArr))

  def farray(self, cells, shape):
    return self.array(cells, shape).astype(float)

  def nparray(self, x):
    return N.array(x, copy=False)

  def objarray(self, x):
    return N.asobj(x)

  def scalar(self, x):
    return N.scalar(N.norm(x))

  # predicates --------------------------------------------------------------
  def assume(self, c):
    self.p.assume(V.bexpr(c))

  def truth(self, c):
    return bool(c)

  def isnan(self, x):
    return V.sx_isnan(x)

  def isinf(self, x):
    x = N.norm(x)
    return V.sx_isinf(x)

  def isposinf(self, x):
    x = N.norm(x)
    if isinstance(x, float):
      return x == V.INF
    return V.sx_isinf(x)

  def finite(self, x):
    x = N.norm(x)
    return V.sx_isfinite(x) if not isinstance(x, float) else False

  def eq(self, a, b):
    return _deep(a, b, self._eq1)

  def _eq1(self, a, b):
    a, b = N.norm(a), N.norm(b)
    if V.isnan_plain(a) or V.isnan_plain(b):
      return bool(V.isnan_plain(a) and V.isnan_plain(b))
    if N.kind(a) == "o" or N.kind(b) == "o":
      return a is b or bool(a == b)
    return V.eq(a, b)

  def close(self, a, b):
    return self.eq(a, b)

  def le(self, a, b):
    return V.le(N.norm(a), N.norm(b))

  def lt(self, a, b):
    return V.lt(N.norm(a), N.norm(b))

  lt_ = lt
  le_ = le

  def and_(self, *cs):
    return V.land(*cs)

  def or_(self, *cs):
    return V.lor(*cs)

  def not_(self, c):
    return V.lnot(c)

  def implies(self, a, b):
    return V.lor(V.lnot(a), b)

  def ite(self, c, a, b):
    return V.ite(c, a, b)

  def exp(self, x):
    return V.sx_exp(x)

  def log(self, x):
    return V.sx_log(x)

  def sqrt(self, x):
    return V.sx_sqrt(x)

  def normal_quantile(self, p):
    return shims.norm_ppf(p)

  def chi2_quantile(self, p, df):
    return shims.chi2_ppf(p, df)

  def all_equal(self, xs):
    return V.land(*[V.eq(xs[0], x) for x in xs[1:]]) if xs else True

  def check(self, label, cond):
    self.p.check(label, V.bexpr(cond))

  # randomness support --------------------------------------------------------
  def assume_support(self, x, f):
    for c in f(x):
      self.p.fact(V.bexpr(c))

  def support_binomial(self, t, p, n):
    self.p.fact(z3.And(
        z3.Implies(V.bexpr(V.le(p, 0)), V.bexpr(V.eq(t, 0))),
        z3.Implies(V.bexpr(V.le(1, p)), V.bexpr(V.eq(t, n)))))

  def support_zero(self, i, k, p):
    self.p.fact(z3.Implies(V.bexpr(V.le(p, 0)), V.bexpr(V.lnot(V.eq(i, k)))))

  def distinct(self, xs):
    zs = [x.zi() for x in xs]
    if len(zs) > 1:
      self.p.fact(z3.Distinct(zs))

  def pick(self, vals, i):
    vals = [N.norm(v) for v in vals]
    if isinstance(i, SymNum) and i.const():
      return vals[int(i.v)]
    if any(isinstance(v, float) for v in vals):
      return vals[int(i)]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
      r = V.ite(V.eq(i, k), vals[k], r)
    return r

  def permute(self, src, ps):
    base = N.asobj(src)
    out = np.empty(base.shape, dtype=object)
    for j, p in enumerate(ps):
      if base.ndim == 1:
        out[j] = self.pick(list(base), p)
      else:
        rows = [base[k].reshape(-1) for k in range(len(base))]
        row = [self.pick([r[c] for r in rows], p) for c in range(rows[0].size)]
        o = np.empty(len(row), dtype=object)
        for c, x in enumerate(row):
          o[c] = x
        out[j] = o.reshape(base.shape[1:])
    return out.view(N.SymArr)


def _deep(a, b, eq1):
  """Structural equality of scalars, arrays, tuples."""
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) != len(b):
      return False
    return V.land(*[_deep(x, y, eq1) for x, y in zip(a, b)])
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    sa = a.shape if isinstance(a, np.ndarray) else N.shape_of(a)
    sb = b.shape if isinstance(b, np.ndarray) else N.shape_of(b)
    if sa != sb:
      return False
    oa, ob = N.asobj(a), N.asobj(b)
    return V.land(*[eq1(x, y) for x, y in zip(oa.reshape(-1), ob.reshape(-1))])
  if a is None or b is None:
    return a is b
  return eq1(a, b)


TOL = 1e-9


class ReplayEnv(Env):
  """Runs a harness on the real code with the values of a model."""
  sym = False

  def __init__(self, values):
    self.values = values
    self.failed = []
    self.passed = 0
    self.missing = 0
    self._nalias = 0
    super().__init__()

  def _val(self, name, default):
    if name in self.values["inputs"]:
      return self.values["inputs"][name]
    self.missing += 1
    return default

  def real(self, name, lo=None, hi=None, gt=None, lt=None):
    name = self.uniq(name)
    d = 0.0
    for b, k in ((lo, 0), (hi, 0), (gt, .5), (lt, -.5)):
      if b is not None:
        d = float(b) + k
    return np.float64(self._val(name, d))

  def int(self, name, lo, hi):
    return int(self._val(self.uniq(name), lo))

  def bool(self, name):
    return bool(self._val(self.uniq(name), False))

  def choose(self, name, options):
    options = list(options)
    return options[int(self._val(self.uniq(name), len(options) - 1))]

  def ext(self, name, lo=None):
    b = bool(self._val(self.uniq(name + ".inf"), False))
    r = self.real(name, lo=lo)
    return np.float64(np.inf) if b else r

  def fn(self, name, args, lo=None, hi=None):
    args = [float(a) for a in args]
    best = None
    for old, r in self.values["funcs"].get(name, []):
      if len(old) == len(args):
        d = max([abs(x - y) / (1 + abs(x)) for x, y in zip(old, args)] or [0])
        if best is None or d < best[0]:
          best = (d, r)
    if best is not None and best[0] < 1e-7:
      return np.float64(best[1])
    self.missing += 1
    if best is not None and best[0] < 1e-3:
      return np.float64(best[1])
    h = int(hashlib.sha1(repr((name, [round(a, 9) for a in args])).encode()
                         ).hexdigest()[:8], 16) / 2**32
    if lo is not None and hi is not None:
      return np.float64(lo + (hi - lo) * h)
    return np.float64(4 * h - 2)

  def named(self, key, prefix):
    al = self.values.get("aliases", [])
    k = self._events
    self._events += 1
    if k < len(al):
      self._aliases.setdefault(key, al[k])
      return al[k]
    nm = self._aliases.get(key)
    if nm is None:
      nm = self._aliases[key] = f"{prefix}x{len(self._aliases)}"
    return nm

  def key(self, x):
    return _zkey(x)

  def number(self, x):
    return float(x)

  def numeric(self):
    pass

  def const(self, x):
    return float(x)

  def array(self, cells, shape, integer=False):
    cells = [int(c) if isinstance(c, (int, np.integer)) and not isinstance(
        c, (bool, np.bool_)) else c for c in cells]
    if integer:
      return np.array(cells, dtype=int).reshape(shape)
    if cells and all(isinstance(c, (int, np.integer)) for c in cells):
      return np.array(cells).reshape(shape)
    if cells and all(isinstance(c, (bool, np.bool_)) for c in cells):
      return np.array(cells, dtype=bool).reshape(shape)
    return np.array([float(c) for c in cells], dtype=float).reshape(shape)

  def farray(self, cells, shape):
    return np.array([float(c) for c in cells], dtype=float).reshape(shape)

  def nparray(self, x):
    return np.asarray(x)

  def objarray(self, x):
    a = np.asarray(x)
    return a

  def scalar(self, x):
    return x

  def assume(self, c):
    if not bool(c):
      self.values.setdefault("assume_failed", 0)
      self.values["assume_failed"] += 1

  def truth(self, c):
    return bool(c)

  def isnan(self, x):
    return bool(np.isnan(float(x)))

  def isinf(self, x):
    return bool(np.isinf(float(x)))

  def isposinf(self, x):
    return bool(float(x) == np.inf)

  def finite(self, x):
    return bool(np.isfinite(float(x)))

  def eq(self, a, b):
    return _deep(a, b, self._eq1)

  def _eq1(self, a, b):
    if isinstance(a, SymNum):
      a = float(a)
    if isinstance(b, SymNum):
      b = float(b)
    if isinstance(a, bool) and isinstance(b, bool):
      return a == b
    if V.is_plain(a) and V.is_plain(b):
      a, b = float(a), float(b)
      if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
      if math.isinf(a) or math.isinf(b):
        return a == b
      return abs(a - b) <= TOL * (1 + max(abs(a), abs(b)))
    return a is b or bool(a == b)

  def close(self, a, b):
    return self.eq(a, b)

  def le(self, a, b):
    a, b = float(a), float(b)
    return a <= b or (math.isfinite(a) and math.isfinite(b) and
                      a <= b + TOL * (1 + abs(b)))

  def lt(self, a, b):
    a, b = float(a), float(b)
    return a < b

  def lt_(self, a, b):
    return float(a) < float(b)

  def le_(self, a, b):
    return float(a) <= float(b)

  def and_(self, *cs):
    return all(bool(c) for c in cs)

  def or_(self, *cs):
    return any(bool(c) for c in cs)

  def not_(self, c):
    return not bool(c)

  def implies(self, a, b):
    return (not bool(a)) or bool(b)

  def ite(self, c, a, b):
    return a if c else b

  def exp(self, x):
    return np.exp(x)

  def log(self, x):
    return np.log(x)

  def sqrt(self, x):
    return np.sqrt(x)

  def normal_quantile(self, p):
    import scipy.stats
    return scipy.stats.norm.ppf(p)

  def chi2_quantile(self, p, df):
    import scipy.stats
    return scipy.stats.chi2.ppf(p, df)

  def all_equal(self, xs):
    return all(float(x) == float(xs[0]) for x in xs)

  def check(self, label, cond):
    if bool(cond):
      self.passed += 1
    else:
      self.failed.append(label)

  def assume_support(self, x, f):
    pass

  def support_binomial(self, t, p, n):
    pass

  def support_zero(self, i, k, p):
    pass

  def distinct(self, xs):
    pass

  def pick(self, vals, i):
    return vals[int(i)]

  def permute(self, src, ps):
    return np.asarray(src)[np.array([int(p) for p in ps], dtype=int)]


# ---------------------------------------------------------------------------
def val_of(model, e):
  v = model.eval(e, model_completion=True)
  if z3.is_true(v):
    return True
  if z3.is_false(v):
    return False
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_rational_value(v):
    return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
  if z3.is_algebraic_value(v):
    w = v.approx(20)
    return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
  raise Inconclusive(f"no value for {e}")


def extract(path, env, model):
  """The model as plain values for a ReplayEnv."""
  inputs = {n: val_of(model, v) for n, (_, v) in path.inputs.items()}
  funcs = {n: [([val_of(model, a) for a in args], val_of(model, r))
               for args, r in t] for n, t in path.funcs.items()}
  return {"inputs": inputs, "funcs": funcs,
          "aliases": list(getattr(env, "events_alias", []))}


def observed_value(model, v):
  """Evaluates an observation of the symbolic run in a model."""
  if isinstance(v, np.ndarray):
    return [observed_value(model, x) for x in N.asobj(v).reshape(-1)]
  if isinstance(v, (list, tuple)):
    return [observed_value(model, x) for x in v]
  if isinstance(v, SymNum):
    if v.pinf is not None and val_of(model, v.pinf):
      return math.inf
    return float(v.v) if v.const() else float(val_of(model, v.v))
  if isinstance(v, SymBool):
    return float(val_of(model, v.e))
  if V.is_plain(v):
    return float(v)
  return repr(type(v).__name__) if not isinstance(v, (str, type(None))) else v


def plain_observed(v):
  if isinstance(v, np.ndarray):
    return [plain_observed(x) for x in v.reshape(-1)]
  if isinstance(v, (list, tuple)):
    return [plain_observed(x) for x in v]
  if V.is_plain(v):
    return float(v)
  return repr(type(v).__name__) if not isinstance(v, (str, type(None))) else v


def same_observed(a, b, tol=1e-6):
  if isinstance(a, list) or isinstance(b, list):
    if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
      return False
    return all(same_observed(x, y, tol) for x, y in zip(a, b))
  if isinstance(a, float) and isinstance(b, float):
    if math.isnan(a) or math.isnan(b):
      return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
      return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
  return a == b
