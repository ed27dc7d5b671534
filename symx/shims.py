"""Stand-ins for numpy's namespace, randomness, sklearn, scipy, logging.

One implementation serves both modes.  In symbolic mode numbers are SymNum and
arrays SymArr; in replay mode they are ordinary floats and the real numpy is
used, with the same random draws and predictor values scripted by a model.
"""
import math as _math
import types

import numpy as np
import z3

from symx import core
from symx import ratfun
from symx import nparr as N
from symx import values as V
from symx.core import Unsupported
from symx.values import Fraction, SymBool, SymNum


# ---------------------------------------------------------------------------
# numpy namespace for symbolic mode
class _NpScalarMeta(type):
  base = ()

  def __instancecheck__(cls, x):
    if isinstance(x, cls._real):
      return True
    return isinstance(x, SymNum) and bool(x.isint) == cls._int

  def __subclasscheck__(cls, c):
    return issubclass(c, cls._real)

  def __eq__(cls, o):
    return o is cls or o is cls._real

  def __hash__(cls):
    return hash(cls._real)


def _np_scalar(name, real, isint, conv):
  def __new__(cls, x=0):
    if isinstance(x, (np.ndarray, list, tuple)):
      return N.array(x, conv)
    r = V.norm_scalar(x, conv)
    return r
  return _NpScalarMeta(name, (), {"__new__": __new__, "_real": real,
                                  "_int": isint, "_conv": conv})


def _norm_scalar(x, conv):
  x = N.norm(x)
  return N.scalar(N.norm(V.astype(x, conv)))


V.norm_scalar = _norm_scalar

_SCALARS = {
    "float64": _np_scalar("float64", np.floating, False, float),
    "float32": _np_scalar("float32", np.floating, False, float),
    "double": _np_scalar("double", np.floating, False, float),
    "int64": _np_scalar("int64", np.integer, True, int),
    "int32": _np_scalar("int32", np.integer, True, int),
    "int_": _np_scalar("int_", np.integer, True, int),
    "intp": _np_scalar("intp", np.integer, True, int),
    "floating": _np_scalar("floating", np.floating, False, float),
    "integer": _np_scalar("integer", np.integer, True, int),
}
_SCALARS["float_"] = _SCALARS["float64"]

_old_real_type = V.real_type


def real_type(t):
  if isinstance(t, _NpScalarMeta):
    return t._conv
  if t is np.float64 or t is np.float32:
    return float
  if t is np.int64 or t is np.int32:
    return int
  if t is np.bool_:
    return bool
  if isinstance(t, np.dtype):
    return {"f": float, "i": int, "u": int, "b": bool}.get(t.kind, object)
  if isinstance(t, str):
    return {"float": float, "float64": float, "int": int, "int64": int,
            "bool": bool, "object": object, "f8": float, "i8": int,
            "f": float, "i": int, "d": float}.get(t, t)
  return _old_real_type(t)


V.real_type = real_type
_old_astype = V.astype
V.astype = lambda x, t: _old_astype(x, real_type(t))


class RClass:
  """np.r_"""

  def __getitem__(self, key):
    if not isinstance(key, tuple):
      key = (key,)
    parts = []
    for k in key:
      if isinstance(k, str):
        raise Unsupported("r_ directives")
      if isinstance(k, slice):
        if isinstance(k.step, complex):
          parts.append(N.linspace(k.start, k.stop, int(abs(k.step))))
        else:
          parts.append(N.arange(k.start or 0, k.stop, k.step or 1))
      else:
        parts.append(N.f_atleast_1d(k))
    return N.f_concatenate(parts)

  def __len__(self):
    return 0


class CClass:
  """np.c_"""

  def __getitem__(self, key):
    if not isinstance(key, tuple):
      key = (key,)
    parts = []
    for k in key:
      if isinstance(k, slice):
        k = N.arange(k.start or 0, k.stop, k.step or 1)
      a = N.f_atleast_1d(k)
      parts.append(a.reshape(-1, 1) if a.ndim == 1 else a)
    return N.f_concatenate(parts, axis=-1)


class UfuncProxy:
  """A ufunc whose every use goes through the symbolic dispatch."""

  def __init__(self, name, real):
    self.__name__ = name
    self._real = real
    self.nin, self.nout = real.nin, real.nout

  def __call__(self, *a, out=None, **k):
    if len(a) > self.nin:
      out, a = a[self.nin:], a[:self.nin]
    if out is not None and not isinstance(out, tuple):
      out = (out,)
    return N.dispatch_ufunc(self._real, "__call__", a, dict(k, out=out))

  def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
    return N.dispatch_ufunc(self._real, "reduce", (a,),
                            dict(k, axis=axis, keepdims=keepdims, dtype=dtype,
                                 out=out))

  def accumulate(self, a, axis=0, dtype=None, out=None):
    return N.dispatch_ufunc(self._real, "accumulate", (a,), {"axis": axis})

  def outer(self, a, b, **k):
    return N.dispatch_ufunc(self._real, "outer", (a, b), k)

  def at(self, a, idx, b=None):
    return N.dispatch_ufunc(self._real, "at",
                            (a, idx) if b is None else (a, idx, b), {})


class Vectorize:
  """np.vectorize"""

  def __init__(self, f, otypes=None, **k):
    self._f = f
    if k.get("signature"):
      raise Unsupported("vectorize signature")

  def __call__(self, *a):
    return N.finish(N.elementwise(self._f, a), True)


class LinalgProxy(types.ModuleType):

  def __init__(self):
    super().__init__("numpy.linalg")
    self.LinAlgError = np.linalg.LinAlgError

  def __getattr__(self, name):
    if name in N.L:
      return N.L[name]
    if name.startswith("__"):
      raise AttributeError(name)

    def f(*a, **k):
      raise Unsupported(f"numpy.linalg.{name}")
    return f


class NumpyProxy(types.ModuleType):
  """The numpy namespace as analysed modules see it."""

  def __init__(self, rnd):
    super().__init__("numpy")
    self.random = rnd
    self.linalg = LinalgProxy()
    self.r_ = RClass()
    self.c_ = CClass()
    self.vectorize = Vectorize
    self.ndarray = np.ndarray
    self.bool_ = np.bool_
    for k, v in _SCALARS.items():
      setattr(self, k, v)

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    real = getattr(np, name)
    if isinstance(real, np.ufunc):
      r = UfuncProxy(real.__name__, real)
    elif name in N.F:
      r = N.F[name]
    elif name in ("s_", "index_exp", "mgrid", "ogrid", "newaxis", "inf", "nan",
                  "pi", "e", "euler_gamma"):
      r = real
    elif isinstance(real, type) or isinstance(real, types.ModuleType):
      r = real
    elif callable(real):
      def r(*a, **k):
        return N.dispatch_function(real, a, k)
    else:
      r = real
    setattr(self, name, r)
    return r


class ReplayNumpy(types.ModuleType):
  """Real numpy with scripted randomness."""

  def __init__(self, rnd):
    super().__init__("numpy")
    self.random = rnd

  def __getattr__(self, name):
    r = getattr(np, name)
    setattr(self, name, r)
    return r


# ---------------------------------------------------------------------------
# randomness
class Gen:
  """A source of arbitrary draws obeying each distribution's support."""

  def __init__(self, world, tag):
    self._w = world
    self._tag = tag
    self._k = 0
    self.bit_generator = None

  # naming
  def _name(self, what):
    n = f"{self._tag}.{self._k}.{what}"
    self._k += 1
    return n

  def _pname(self, what, *params):
    """A name shared only by draws with the same parameters."""
    return self._name(self._w.named((what,) + tuple(
        self._w.key(p) for p in params), what))

  def _shape(self, size):
    if size is None:
      return None
    if isinstance(size, (tuple, list)) or isinstance(
        size, np.ndarray) and size.ndim:
      return tuple(_dim(x) for x in size)
    return (_dim(size),)

  def _out(self, shape, cells):
    """cells: list in C order -> scalar or array."""
    if shape is None:
      return self._w.scalar(cells[0])
    return self._w.array(cells, shape)

  def _params(self, size, *ps):
    """Broadcast parameters -> (shape or None, list of tuples)."""
    arrs = [self._w.objarray(p) for p in ps]
    sh = np.broadcast_shapes(*[a.shape for a in arrs])
    shape = self._shape(size)
    if shape is None:
      scalar = sh == ()
      tgt = sh
    else:
      scalar = False
      if np.broadcast_shapes(sh, shape) != shape:
        raise ValueError("Output size is not compatible with broadcast "
                         "dimensions of inputs.")
      tgt = shape
    arrs = [np.broadcast_to(a, tgt) for a in arrs]
    cells = [tuple(a[i] for a in arrs) for i in np.ndindex(tgt)]
    return (None if scalar else tgt), cells

  # distributions
  def standard_normal(self, size=None, *_, **__):
    shape = self._shape(size)
    n = int(np.prod(shape)) if shape is not None else 1
    return self._out(shape, [self._w.draw(self._name("n")) for _ in range(n)])

  def randn(self, *dims):
    return self.standard_normal(dims if dims else None)

  def random(self, size=None, *_, **__):
    shape = self._shape(size)
    n = int(np.prod(shape)) if shape is not None else 1
    return self._out(shape, [self._unit() for _ in range(n)])

  random_sample = ranf = sample = random

  def rand(self, *dims):
    return self.random(dims if dims else None)

  def _unit(self):
    u = self._w.draw(self._name("u"))
    self._w.assume_support(u, lambda x: [x >= 0, x < 1])
    return u

  def uniform(self, low=0, high=1, size=None):
    shape, cells = self._params(size, low, high)
    out = []
    for lo, hi in cells:
      nm = self._pname("U", lo, hi)
      if self._w.pinned(nm):
        out.append(lo + (hi - lo) * self._w.pinned_unit(nm))
        continue
      u = self._w.draw(nm)
      if self._w.truth(self._w.lt_(hi, lo)):
        raise OverflowError("high - low range exceeds valid bounds")
      self._w.assume_support(u, lambda x, lo=lo, hi=hi: [
          self._w.le_(lo, x), self._w.le_(x, hi)])
      out.append(u)
    self._w.trace.append(("uniform", cells, out))
    return self._out(shape, out)

  def normal(self, loc=0, scale=1, size=None):
    shape, cells = self._params(size, loc, scale)
    out, eps = [], []
    for m, s in cells:
      if self._w.isnan(s) or self._w.truth(self._w.lt_(s, 0)):
        raise ValueError("scale < 0")
      e = self._w.draw(self._name("n"))
      eps.append(e)
      out.append(m + s * e)
    self._w.trace.append(("normal", cells, eps, out))
    return self._out(shape, out)

  def multivariate_normal(self, mean, cov, size=None, *_, **__):
    mean = self._w.objarray(mean)
    cov = self._w.objarray(cov)
    if mean.ndim != 1:
      raise ValueError("mean must be 1 dimensional")
    if cov.ndim != 2 or cov.shape[0] != cov.shape[1]:
      raise ValueError("cov must be 2 dimensional and square")
    if mean.shape[0] != cov.shape[0]:
      raise ValueError("mean and cov must have same length")
    shape = self._shape(size) or ()
    n = int(np.prod(shape)) if shape else 1
    out, eps = [], []
    for _ in range(n):
      for m in mean:
        e = self._w.draw(self._name("n"))
        eps.append(e)
        out.append(m + e)
    self._w.trace.append(("mvn", mean, cov, eps, out))
    return self._out(shape + mean.shape, out)

  def binomial(self, n, p, size=None):
    shape, cells = self._params(size, n, p)
    out = []
    for nn, pp in cells:
      if self._w.isnan(pp) or self._w.truth(self._w.or_(
          self._w.lt_(pp, 0), self._w.lt_(1, pp))):
        raise ValueError("p < 0, p > 1 or p contains NaNs")
      nn = int(nn)
      t = self._w.draw(self._pname("b", nn, pp), 0, nn)
      self._w.support_binomial(t, pp, nn)
      out.append(t)
    self._w.trace.append(("binomial", cells, out))
    return self._out(shape, out)

  def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
    if high is None:
      low, high = 0, low
    low, high = int(low), int(high)
    if endpoint:
      high += 1
    if high <= low:
      raise ValueError("low >= high")
    shape = self._shape(size)
    n = int(np.prod(shape)) if shape is not None else 1
    out = [self._w.draw(self._pname("i", low, high), low, high - 1) for _ in range(n)]
    self._w.trace.append(("integers", low, high, out))
    return self._out(shape, out)

  def randint(self, low, high=None, size=None, dtype=None):
    return self.integers(low, high, size)

  def permutation(self, x, axis=0):
    w = self._w
    if axis != 0:
      raise Unsupported("permutation axis")
    if isinstance(x, (int, np.integer)) or isinstance(x, SymNum):
      n = int(x)
      src = w.array(list(range(n)), (n,), integer=True)
    else:
      src = w.nparray(x)
      n = len(src)
    ps = self._perm(n)
    w.trace.append(("permutation", n, ps))
    return w.permute(src, ps)

  def _perm(self, n):
    w = self._w
    if w.pinned(self._tag):
      nm = self._name("p")
      return sorted(range(n), key=lambda i: (w.pinned_unit(f"{nm}{i}"), i))
    if w.few_orders:
      ks = list(range(n))
      if w.few_orders == "one":
        w.perm_calls += 1
        o = w.perm_calls % 3
      else:
        o = int(w.draw(self._name(f"o{n}"), 0, 2))
      return (ks, ks[::-1], ks[n // 2 + 1:] + ks[:n // 2 + 1])[o]
    ps = [w.draw(self._name(f"p{n}"), 0, n - 1) for _ in range(n)]
    w.distinct(ps)
    return ps

  def shuffle(self, x, axis=0):
    w = self._w
    n = len(x)
    ps = self._perm(n)
    w.trace.append(("permutation", n, ps))
    if isinstance(x, list):
      idx = [int(p) for p in ps]
      x[:] = [x[i] for i in idx]
      return
    y = w.permute(w.nparray(x).copy(), ps)
    x[...] = y

  def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    w = self._w
    if axis != 0:
      raise Unsupported("choice axis")
    if isinstance(a, (int, np.integer)) or isinstance(a, SymNum):
      n = int(a)
      if n <= 0:
        raise ValueError("a must be greater than 0 unless no samples are taken")
      pool = None
    else:
      if isinstance(a, np.ndarray) and a.ndim > 1:
        raise ValueError("a must be 1-dimensional")
      n = len(a)
      pool = a
    shape = self._shape(size)
    m = int(np.prod(shape)) if shape is not None else 1
    if n == 0 and m:
      raise ValueError("'a' cannot be empty unless no samples are taken")
    ps = None
    if p is not None:
      ps = list(w.objarray(p).reshape(-1))
      if len(ps) != n:
        raise ValueError("'a' and 'p' must have same size")
      if any(w.isnan(x) for x in ps):
        raise ValueError("Probabilities contain NaN")
      neg = False
      tot = 0
      for x in ps:
        neg = w.or_(neg, w.lt_(x, 0))
        tot = tot + x
      if w.truth(neg):
        raise ValueError("Probabilities are not non-negative")
      if w.truth(w.or_(w.lt_(tot, 1 - Fraction(1, 10**8) if w.sym
                             else 1 - 1e-8),
                       w.lt_(1 + Fraction(1, 10**8) if w.sym else 1 + 1e-8,
                             tot))):
        raise ValueError("Probabilities do not sum to 1")
    if not replace and m > n:
      raise ValueError("Cannot take a larger sample than population when "
                       "replace is False")
    if w.fixed_masks and replace:
      # a bound: each draw takes the next value in turn
      idx = [(w.fixed_masks + i) % n for i in range(m)]
      w.fixed_masks += m
    else:
      idx = [w.draw(self._pname(f"c{n}{replace}", ps), 0, n - 1)
             for _ in range(m)]
    if not replace:
      w.distinct(idx)
    if ps is not None:
      for i in idx:
        for k, x in enumerate(ps):
          w.support_zero(i, k, x)
    w.trace.append(("choice", n, ps, idx))
    if pool is None:
      return self._out(shape, idx)
    vals = list(pool)
    if not m:
      return w.nparray(pool)[:0].reshape(shape)
    if all(V.is_sym(v) or V.is_plain(v) for v in vals):
      return self._out(shape, [w.pick(vals, i) for i in idx])
    # objects: decide the index
    picked = [vals[int(i)] for i in idx]
    if shape is None:
      return picked[0]
    o = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(shape)):
      o[i] = picked[k]
    return o.view(N.SymArr) if w.sym else o

  def spawn(self, n):
    r = [Gen(self._w, f"{self._tag}.spawn{self._k}.{i}") for i in range(n)]
    self._k += 1
    return r

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    raise Unsupported(f"random distribution {name}")


def _dim(x):
  if isinstance(x, (float, np.floating)) or isinstance(
      x, SymNum) and not x.isint:
    raise TypeError("'float' object cannot be interpreted as an integer")
  return x.__index__()


class RandomModule(types.ModuleType):
  """np.random: the global generator plus constructors."""

  def __init__(self, world):
    super().__init__("numpy.random")
    self._world = world
    self._gen = Gen(world, "glob")
    self._n = 0
    self.Generator = Gen

  def seed(self, s=None):
    self._gen = Gen(self._world, self._tagged("glob", s))

  def _fresh(self):
    self._n += 1
    return f"os{self._n}"

  def _tagged(self, kind, seed):
    if seed is None:
      return self._fresh()
    seed = seed if isinstance(seed, str) else self._world.key(seed)
    return f"{kind}[{seed}]"

  def default_rng(self, seed=None):
    if isinstance(seed, Gen):
      return seed
    return Gen(self._world, self._tagged("rng", seed))

  def RandomState(self, seed=None):
    return self.default_rng(seed)

  def get_state(self, *a, **k):
    return self._gen, self._gen._k

  def set_state(self, s):
    self._gen, self._gen._k = s

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    g = self.__dict__["_gen"]
    if not hasattr(Gen, name):
      def f(*a, **k):
        raise Unsupported(f"np.random.{name}")
      return f
    # Looked up at call time, so that references taken early (default
    # arguments) follow a later seed(), as numpy's do.
    return lambda *a, **k: getattr(self.__dict__["_gen"], name)(*a, **k)


# ---------------------------------------------------------------------------
# scikit-learn
class NotFittedError(ValueError, AttributeError):
  pass


class ConvergenceWarning(UserWarning):
  pass


def make_sklearn(world):
  """A module tree whose estimators are arbitrary functions of what they saw."""

  def rows2d(x, allow_empty=False):
    x = world.nparray(x)
    if x.ndim != 2:
      raise ValueError(f"Expected 2D array, got {x.ndim}D array instead")
    if x.shape[0] == 0 and not allow_empty:
      raise ValueError("Found array with 0 sample(s) while a minimum of 1 is "
                       "required.")
    for e in world.cells(x):
      if world.isnan(e) or world.truth(world.isinf(e)):
        raise ValueError("Input X contains NaN or infinity.")
    return x

  class Estimator:
    _is_classifier = False

    def __init__(self, *args, **params):
      self._args = args
      self._params = dict(params)
      for k, v in params.items():
        setattr(self, k, v)

    def get_params(self, deep=True):
      return dict(self._params)

    def set_params(self, **p):
      self._params.update(p)
      for k, v in p.items():
        setattr(self, k, v)
      return self

    def _sig(self):
      return (type(self).__name__, tuple(world.key(a) for a in self._args),
              tuple(sorted((k, world.key(v)) for k, v in self._params.items())))

    def fit(self, x, y, sample_weight=None):
      x = rows2d(x)
      y = world.nparray(y)
      if len(y) != len(x):
        raise ValueError("Found input variables with inconsistent numbers of "
                         f"samples: {[len(x), len(y)]}")
      for e in world.cells(y):
        if world.isnan(e) or world.truth(world.isinf(e)):
          raise ValueError("Input y contains NaN.")
      if self._is_classifier:
        ys = list(world.cells(y))
        if world.truth(world.all_equal(ys)):
          raise ValueError("This solver needs samples of at least 2 classes in "
                           "the data, but the data contains only one class")
        self.classes_ = world.nparray([0, 1])
      self.n_features_in_ = x.shape[1]
      self._fit = world.fit_event(self._sig(), x, y, sample_weight)
      for a in ("coef_", "intercept_"):
        self.__dict__.pop(a, None)
      world.trace.append(("fit", type(self).__name__, self._fit, x, y, self))
      return self

    def _prep(self, x):
      if "_fit" not in self.__dict__ and "coef_" not in self.__dict__:
        raise NotFittedError(
            f"This {type(self).__name__} instance is not fitted yet.")
      x = rows2d(x)
      n = self.__dict__.get("n_features_in_")
      if n is None:
        c = world.nparray(self.coef_)
        n = c.shape[-1]
      if x.shape[1] != n:
        raise ValueError(f"X has {x.shape[1]} features, but "
                         f"{type(self).__name__} is expecting {n} features as "
                         "input.")
      return x

    def _linear(self, x):
      if not {"coef_", "intercept_"} & set(self.__dict__):
        return None
      # what was not set is still what the last fit left behind
      c = world.objarray(self.coef_).reshape(-1)
      b = world.objarray(self.intercept_).reshape(-1)[0]
      out = []
      for r in world.rows(x):
        acc = b
        for p, q in zip(r, c):
          acc = acc + p * q
        out.append(acc)
      return out

    def __getattr__(self, name):
      if name == "coef_" and "_fit" in self.__dict__:
        # coefficients of the fitted model: arbitrary reals
        v = world.nparray([world.fn(f"{self._fit}.coef", (i,)) for i in range(
            self.n_features_in_)])
        return v
      if name == "intercept_" and "_fit" in self.__dict__:
        if self._params.get("fit_intercept") is False:
          return world.const(0)
        return world.fn(f"{self._fit}.icpt", (0,))
      raise AttributeError(name)

  class Regressor(Estimator):

    def predict(self, x):
      x = self._prep(x)
      lin = self._linear(x)
      if lin is None:
        lin = [world.fn(self._fit, tuple(r)) for r in world.rows(x)]
      return world.array(lin, (len(lin),))

    def score(self, *a, **k):
      raise Unsupported("score")

  class Classifier(Estimator):
    _is_classifier = True

    def predict_proba(self, x):
      x = self._prep(x)
      if "classes_" not in self.__dict__:
        raise AttributeError(f"'{type(self).__name__}' object has no "
                             "attribute 'classes_'")
      lin = self._linear(x)
      if lin is None:
        ps = [world.fn(self._fit, tuple(r), lo=0, hi=1) for r in world.rows(x)]
      else:
        ps = [1 / (1 + world.exp(-v)) for v in lin]
      cells = []
      for p in ps:
        cells += [1 - p, p]
      return world.array(cells, (len(ps), 2))

    def predict(self, x):
      p = self.predict_proba(x)[:, 1]
      return world.np.where(p > Fraction(1, 2) if world.sym else p > .5, 1, 0)

  class Kernel(Estimator):

    def __mul__(self, o):
      return Kernel("mul", self, o)

    def __add__(self, o):
      return Kernel("add", self, o)

    __rmul__ = __mul__
    __radd__ = __add__

  class GP(Regressor):

    def sample_y(self, x, n_samples=1, random_state=0):
      x = rows2d(x)
      if random_state is None:
        random_state = world.np.random._gen
      src = (random_state._name("gp") if isinstance(random_state, Gen)
             else world.key(random_state))
      tag = ("sample_y", self._sig(), world.key(x), src)
      nm = world.named(tag, "gp")
      world.trace.append(("sample_y", nm, int(n_samples)))
      cells = [world.fn(nm, (i,)) for i in range(len(x) * int(n_samples))]
      return world.array(cells, (len(x), int(n_samples)))

    def fit(self, x, y):
      x = rows2d(x)
      y = world.nparray(y)
      self.n_features_in_ = x.shape[1]
      self._fit = world.fit_event(self._sig(), x, y, None)
      world.trace.append(("fit", "GP", self._fit, x, y, self))
      return self

  def mod(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
      setattr(m, k, v)
    return m

  def sub(base, name):
    return type(name, (base,), {})

  def clone(est, safe=True):
    if isinstance(est, Estimator):
      return type(est)(*est._args, **est._params)
    if hasattr(est, "get_params"):
      return type(est)(**est.get_params(deep=False))
    raise TypeError("Cannot clone object: it does not seem to be a "
                    "scikit-learn estimator")

  lm = mod("sklearn.linear_model",
           **{n: sub(Regressor, n) for n in (
               "Ridge", "LinearRegression", "Lasso", "ElasticNet", "RidgeCV",
               "LassoCV", "BayesianRidge")},
           **{n: sub(Classifier, n) for n in (
               "LogisticRegression", "LogisticRegressionCV", "SGDClassifier")})
  kr = mod("sklearn.kernel_ridge", KernelRidge=sub(Regressor, "KernelRidge"))
  en = mod("sklearn.ensemble",
           **{n: sub(Classifier, n) for n in (
               "GradientBoostingClassifier", "RandomForestClassifier")},
           **{n: sub(Regressor, n) for n in (
               "GradientBoostingRegressor", "RandomForestRegressor")})
  ke = mod("sklearn.gaussian_process.kernels", Kernel=Kernel,
           **{n: sub(Kernel, n) for n in (
               "RBF", "ExpSineSquared", "Matern", "WhiteKernel",
               "ConstantKernel", "RationalQuadratic")})
  gp = mod("sklearn.gaussian_process", kernels=ke,
           GaussianProcessRegressor=sub(GP, "GaussianProcessRegressor"))
  ex = mod("sklearn.exceptions", ConvergenceWarning=ConvergenceWarning,
           NotFittedError=NotFittedError)
  ba = mod("sklearn.base", clone=clone, BaseEstimator=Estimator)
  sk = mod("sklearn", linear_model=lm, kernel_ridge=kr, ensemble=en,
           gaussian_process=gp, exceptions=ex, base=ba, clone=clone)
  return {
      "sklearn": sk, "sklearn.linear_model": lm, "sklearn.kernel_ridge": kr,
      "sklearn.ensemble": en, "sklearn.gaussian_process": gp,
      "sklearn.gaussian_process.kernels": ke, "sklearn.exceptions": ex,
      "sklearn.base": ba,
  }


# ---------------------------------------------------------------------------
# scipy (symbolic mode): quantile functions by their order properties
def _ppf_table(kind):
  return core.ctx().memo.setdefault(("ppf", kind), [])


def norm_ppf(q, loc=0, scale=1):
  def one(q):
    q = V._fin(V.lift(q))
    if isinstance(q, float):
      return V.NAN
    if bool(V.lt(q, 0)) or bool(V.lt(1, q)):
      return V.NAN
    if bool(V.eq(q, 0)):
      return -V.INF
    if bool(V.eq(q, 1)):
      return V.INF
    c = core.ctx()
    e = z3.simplify(q.z())
    table = _ppf_table("norm")
    for a, r in table:
      if ratfun.same(a, e):
        return SymNum(r)
    r = z3.Real(f"normppf!{len(table)}")
    half = z3.RealVal("1/2")
    c.fact(z3.And((e > half) == (r > 0), (e < half) == (r < 0)))
    if q.const():
      from statistics import NormalDist
      y = NormalDist().inv_cdf(float(q.v))
      c.fact(z3.And(r >= V.z3frac(Fraction(y) - Fraction(1, 10**6)),
                    r <= V.z3frac(Fraction(y) + Fraction(1, 10**6))))
    for a, p in table:
      c.fact(z3.And((a < e) == (p < r), (a == e) == (p == r),
                    (a + e == 1) == (p + r == 0)))
    table.append((e, r))
    return SymNum(r)
  r = N.finish(N.elementwise(one, (q,)))
  if not (isinstance(loc, int) and loc == 0 and isinstance(scale, int) and scale == 1):
    r = loc + scale * r
  return r


def chi2_ppf(q, df, loc=0, scale=1):
  def one(q, df):
    q, df = V._fin(V.lift(q)), V._fin(V.lift(df))
    if isinstance(q, float) or isinstance(df, float):
      return V.NAN
    if bool(V.le(df, 0)) or bool(V.lt(q, 0)) or bool(V.lt(1, q)):
      return V.NAN
    if bool(V.eq(q, 0)):
      return SymNum(Fraction(0))
    if bool(V.eq(q, 1)):
      return V.INF
    c = core.ctx()
    e, d = z3.simplify(q.z()), z3.simplify(df.z())
    table = _ppf_table("chi2")
    for a, b, r in table:
      if ratfun.same(a, e) and ratfun.same(b, d):
        return SymNum(r)
    r = z3.Real(f"chi2ppf!{len(table)}")
    c.fact(r > 0)
    # the median lies below the mean; P(chi2_d <= d) <= P(chi2_1 <= 1) < .6827
    c.fact(z3.Implies(e <= z3.RealVal("1/2"), r < d))
    c.fact(z3.Implies(z3.And(e >= z3.RealVal("683/1000"), d >= 1), r >= d))
    if q.const() and df.const():
      import scipy.stats
      y = Fraction(float(scipy.stats.chi2.ppf(float(q.v), float(df.v))))
      c.fact(z3.And(r >= V.z3frac(y * (1 - Fraction(1, 10**6))),
                    r <= V.z3frac(y * (1 + Fraction(1, 10**6)))))
    for a, b, p in table:
      c.fact(z3.Implies(b == d, z3.And((a < e) == (p < r), (a == e) == (p == r))))
      c.fact(z3.Implies(a == e, z3.And((b < d) == (p < r))))
    table.append((e, d, r))
    return SymNum(r)
  return N.finish(N.elementwise(one, (q, df)))


class _Missing:

  def __init__(self, name):
    self._name = name

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    return _Missing(f"{self._name}.{n}")

  def __call__(self, *a, **k):
    raise Unsupported(self._name)


class PermissiveModule(types.ModuleType):
  """A module whose members raise Unsupported only when called."""

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    return _Missing(f"{self.__name__}.{n}")


def make_scipy():
  stats = PermissiveModule("scipy.stats")
  nd = types.SimpleNamespace(ppf=norm_ppf,
                             isf=lambda q, *a, **k: norm_ppf(1 - q, *a, **k))
  ch = types.SimpleNamespace(ppf=chi2_ppf,
                             isf=lambda q, *a, **k: chi2_ppf(1 - q, *a, **k))
  stats.norm, stats.chi2 = nd, ch
  special = PermissiveModule("scipy.special")
  special.expit = N.F["expit"]
  special.ndtri = norm_ppf

  def softmax(x, axis=None):
    e = N.F["exp"](x - N.F["max"](x, axis=axis, keepdims=axis is not None))
    return e / N.F["sum"](e, axis=axis, keepdims=axis is not None)
  special.softmax = softmax
  special.logsumexp = lambda x: N.F["log"](N.F["sum"](N.F["exp"](x)))
  linalg = LinalgProxy()
  sp = PermissiveModule("scipy")
  sp.stats, sp.special, sp.linalg = stats, special, linalg
  return {"scipy": sp, "scipy.stats": stats, "scipy.special": special,
          "scipy.linalg": linalg}


def make_math():
  m = types.ModuleType("math")
  for n in dir(_math):
    setattr(m, n, getattr(_math, n))

  def lift1(f, real):
    def g(x):
      if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
      r = f(x)
      return r
    return g

  def dom(f, name):
    def g(x):
      r = f(x)
      if isinstance(r, float) and not (isinstance(x, float) and
                                       not _math.isfinite(x)):
        raise ValueError("math domain error")
      return r
    return g

  def log(x, base=None):
    r = dom(V.sx_log, "log")(x)
    return r if base is None else V.div(r, V.sx_log(base))
  m.sqrt = dom(V.sx_sqrt, "sqrt")
  m.log = log
  m.exp = V.sx_exp
  m.log2 = N.UF["log2"]
  m.log10 = N.UF["log10"]
  m.log1p = N.UF["log1p"]
  m.expm1 = N.UF["expm1"]
  m.isnan = lift1(V.sx_isnan, None)
  m.isinf = lift1(V.sx_isinf, None)
  m.isfinite = lift1(V.sx_isfinite, None)

  def rnd(f):
    def g(x):
      r = f(x)
      if isinstance(r, float):
        return int(r)
      return V.SxInt(r)
    return g
  m.floor = rnd(V.sx_floor)
  m.ceil = rnd(V.sx_ceil)
  m.trunc = rnd(V.sx_trunc)
  m.fabs = V.absolute
  m.pow = V.power

  def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = V.absolute(V.sub(a, b))
    return V.lor(V.le(d, V.mul(rel_tol, V.sx_max(V.absolute(a), V.absolute(b)))),
                 V.le(d, abs_tol))
  m.isclose = isclose

  def fsum(xs):
    return V.sx_sum(xs)
  m.fsum = fsum
  m.prod = lambda xs, start=1: __import__("functools").reduce(V.mul, xs, start)
  return m


class NoLog(types.ModuleType):

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    if n.isupper():
      return 0
    return lambda *a, **k: None


def make_absl():
  lg = NoLog("absl.logging")
  ab = types.ModuleType("absl")
  ab.logging = lg
  return {"absl": ab, "absl.logging": lg}


def make_logging():
  lg = NoLog("logging")
  lg.getLogger = lambda *a, **k: NoLog("logger")
  return {"logging": lg}


def make_matplotlib():
  pl = PermissiveModule("matplotlib.pyplot")
  mp = PermissiveModule("matplotlib")
  mp.pyplot = pl
  return {"matplotlib": mp, "matplotlib.pyplot": pl}
