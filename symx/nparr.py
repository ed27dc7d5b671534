"""numpy over symbolic scalars: SymArr and the dispatch of ufuncs/functions."""
import functools
import itertools
import math

import numpy as np
import z3

from symx import core
from symx import ratfun
from symx import values as V
from symx.core import Unsupported
from symx.values import Fraction, SymBool, SymNum

_OK_BASE = (bool, np.bool_)


def norm(x):
  """Canonical array element: SymNum, SymBool, bool, float inf/nan, other."""
  if isinstance(x, (SymNum, SymBool)):
    return x
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, V._NUMTYPES):  # pylint: disable=protected-access
    return V.lift(x)
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return norm(x.item())
  return x


def scalar(x):
  """An element as the code sees it when it takes it out of an array."""
  if isinstance(x, float):
    return np.float64(x)
  if isinstance(x, bool):
    return np.bool_(x)
  return x


_RANK = {"b": 0, "i": 1, "f": 2, "o": 3}


def kind(x):
  if isinstance(x, (bool, np.bool_, SymBool)):
    return "b"
  if isinstance(x, SymNum):
    return "i" if x.isint and x.pinf is None else "f"
  if isinstance(x, (float, np.floating)):
    return "f"
  if isinstance(x, (int, np.integer)):
    return "i"
  return "o"


def promote(a):
  """Makes the elements of an object array agree on one kind (in place)."""
  flat = a.reshape(-1) if a.flags.c_contiguous else None
  it = flat if flat is not None else a.flat
  ks = {kind(x) for x in it}
  if len(ks) <= 1 or "o" in ks:
    return a
  top = max(ks, key=_RANK.get)
  t = {"i": int, "f": float}[top]
  base = a.view(np.ndarray)
  for idx in np.ndindex(base.shape):
    x = base[idx]
    if kind(x) != top:
      base[idx] = V.astype(x, t)
  return a


def array_kind(a):
  for x in a.flat:
    return kind(x)
  return "f"


def wrap(x, do_promote=False):
  """ndarray of any dtype -> SymArr with normalised elements; scalars too."""
  if isinstance(x, SymArr):
    return promote(x) if do_promote else x
  if isinstance(x, np.ndarray):
    if x.dtype.kind in "USM":
      return x
    if x.dtype == object:
      out = np.empty(x.shape, dtype=object)
      for idx in np.ndindex(x.shape):
        out[idx] = norm(x[idx])
      r = out.view(SymArr)
      return promote(r) if do_promote else r
    isint = x.dtype.kind in "iu"
    out = np.empty(x.shape, dtype=object)
    for idx in np.ndindex(x.shape):
      e = x[idx]
      out[idx] = norm(e)
      if x.dtype.kind == "b":
        out[idx] = bool(e)
      elif isint:
        out[idx] = SymNum(Fraction(int(e)), True)
    return out.view(SymArr)
  return x


def shape_of(x):
  """Shape of a nested sequence (numpy's array() rules for regular nests)."""
  if isinstance(x, np.ndarray):
    return x.shape
  if isinstance(x, (list, tuple, range)):
    if len(x) == 0:
      return (0,)
    s = [shape_of(e) for e in x]
    if any(t != s[0] for t in s):
      raise ValueError("setting an array element with a sequence. The "
                       "requested array has an inhomogeneous shape")
    return (len(x),) + s[0]
  return ()


def _fill(out, idx, x):
  if isinstance(x, np.ndarray):
    for i in np.ndindex(x.shape):
      out[idx + i] = norm(x.view(np.ndarray)[i] if isinstance(x, SymArr)
                          else x[i])
    return
  if isinstance(x, (list, tuple, range)):
    for i, e in enumerate(x):
      _fill(out, idx + (i,), e)
    return
  out[idx] = norm(x)


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
  del order, subok, like
  dtype = V.real_type(dtype)
  if isinstance(x, np.ndarray):
    r = x if isinstance(x, SymArr) else wrap(x)
    if isinstance(r, SymArr):
      r = r.copy() if copy else r
    elif copy:
      r = r.copy()
  elif isinstance(x, (list, tuple, range)):
    if _has_str(x):
      return np.array(x, dtype=dtype)
    sh = shape_of(x)
    out = np.empty(sh, dtype=object)
    _fill(out, (), x)
    r = promote(out.view(SymArr))
  elif hasattr(x, "__array__") and not isinstance(x, (SymNum, SymBool)):
    r = wrap(np.array(x))
  elif hasattr(x, "keys") or not V.is_sym(x) and not V.is_plain(x):
    return np.array(x, dtype=dtype)
  else:
    out = np.empty((), dtype=object)
    out[()] = norm(x)
    r = out.view(SymArr)
  if dtype is not None and isinstance(r, SymArr):
    r = r.astype(dtype)
  while ndmin and r.ndim < ndmin:
    r = r[np.newaxis]
  return r


def _has_str(x):
  if isinstance(x, str):
    return True
  if isinstance(x, (list, tuple)):
    return any(_has_str(e) for e in x)
  if isinstance(x, np.ndarray):
    return x.dtype.kind in "US"
  return False


def asobj(x):
  """Base-class object ndarray view/copy with normalised elements."""
  if isinstance(x, SymArr):
    return x.view(np.ndarray)
  if isinstance(x, np.ndarray):
    return wrap(x).view(np.ndarray)
  if isinstance(x, (list, tuple, range)):
    return array(x).view(np.ndarray)
  out = np.empty((), dtype=object)
  out[()] = norm(x)
  return out


def finish(x, do_promote=False):
  """Result of an object-level computation as the code sees it."""
  if isinstance(x, np.ndarray):
    if x.ndim == 0:
      return scalar(norm(x[()]))
    r = x.view(SymArr)
    return promote(r) if do_promote else r
  return scalar(norm(x))


# ---------------------------------------------------------------------------
# elementwise tables
def _b2(f):
  return lambda a, b: V.mkbool(f(V.bexpr(a), V.bexpr(b))) if (
      V.is_sym(a) or V.is_sym(b)) else bool(V.z3.is_true(z3.simplify(
          f(V.bexpr(a), V.bexpr(b)))))


def _flr(f):
  def g(x):
    r = f(x)
    return V.astype(r, float) if isinstance(r, SymNum) else r
  return g


def _invert(x):
  if isinstance(x, (SymBool, bool, np.bool_)):
    return V.lnot(x)
  raise TypeError("ufunc 'invert' not supported for the input types")


def _and_bits(name, zf):
  def g(a, b):
    if kind(a) == "b" and kind(b) == "b":
      return _b2(zf)(a, b)
    if kind(a) == "f" or kind(b) == "f":
      raise TypeError(f"ufunc 'bitwise_{name}' not supported for float types")
    raise Unsupported(f"bitwise_{name} on integers")
  return g


def _sign(x):
  x = norm(x)
  if isinstance(x, float):
    return x if math.isnan(x) else math.copysign(1.0, x)
  one = SymNum(Fraction(1), x.isint)
  return V.ite(x > 0, one, V.ite(x < 0, -one, SymNum(Fraction(0), x.isint)))


def _neg(x):
  if kind(x) == "b":
    raise TypeError("The numpy boolean negative, the `-` operator, is not "
                    "supported")
  return V.neg(V.lift(x))


def _sub(a, b):
  if kind(a) == "b" and kind(b) == "b":
    raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
  return V.sub(a, b)


def _add(a, b):
  if kind(a) == "b" and kind(b) == "b":
    return V.lor(a, b)
  if kind(a) == "o" or kind(b) == "o":
    return a + b
  return V.add(a, b)


def _mul(a, b):
  if kind(a) == "b" and kind(b) == "b":
    return V.land(a, b)
  return V.mul(a, b)


def _eq(a, b):
  if kind(a) == "o" or kind(b) == "o":
    return a == b
  return V.eq(a, b)


def _logaddexp(a, b):
  return V.sx_log(V.add(V.sx_exp(a), V.sx_exp(b)))


UF = {
    "add": _add, "subtract": _sub, "multiply": _mul,
    "divide": V.div, "true_divide": V.div, "floor_divide": V.floordiv,
    "remainder": V.mod, "mod": V.mod, "power": V.power, "float_power": V.power,
    "negative": _neg, "positive": lambda x: x, "absolute": V.absolute,
    "fabs": V.absolute,
    "equal": _eq, "not_equal": lambda a, b: V.lnot(_eq(a, b)),
    "less": V.lt, "less_equal": V.le,
    "greater": lambda a, b: V.lt(b, a), "greater_equal": lambda a, b: V.le(b, a),
    "sqrt": V.sx_sqrt, "log": V.sx_log, "exp": V.sx_exp,
    "square": lambda x: V.mul(x, x), "reciprocal": lambda x: V.div(1, x),
    "maximum": V.np_maximum, "minimum": V.np_minimum,
    "fmax": lambda a, b: b if V.isnan_plain(a) else a if V.isnan_plain(b)
            else V.np_maximum(a, b),
    "fmin": lambda a, b: b if V.isnan_plain(a) else a if V.isnan_plain(b)
            else V.np_minimum(a, b),
    "isnan": V.sx_isnan, "isinf": V.sx_isinf, "isfinite": V.sx_isfinite,
    "logical_and": _b2(z3.And), "logical_or": _b2(z3.Or),
    "logical_xor": _b2(z3.Xor), "logical_not": V.lnot,
    "bitwise_and": _and_bits("and", z3.And), "bitwise_or": _and_bits("or", z3.Or),
    "bitwise_xor": _and_bits("xor", z3.Xor), "invert": _invert,
    "floor": _flr(V.sx_floor), "ceil": _flr(V.sx_ceil), "trunc": _flr(V.sx_trunc),
    "rint": _flr(lambda x: x.__round__() if isinstance(x, SymNum) else x),
    "sign": _sign,
    "log1p": lambda x: V.sx_log(V.add(1, x)),
    "expm1": lambda x: V.sub(V.sx_exp(x), 1),
    "log2": lambda x: V.div(V.sx_log(x), V.sx_log(2)),
    "log10": lambda x: V.div(V.sx_log(x), V.sx_log(10)),
    "hypot": lambda a, b: V.sx_sqrt(V.add(V.mul(a, a), V.mul(b, b))),
    "conjugate": lambda x: x, "conj": lambda x: x,
    "deg2rad": None, "logaddexp": _logaddexp,
    "isnat": None,
    "heaviside": lambda x, h: V.ite(V.lt(x, 0), 0, V.ite(V.eq(x, 0), h, 1)),
    "copysign": lambda a, b: V.ite(V.le(0, b), V.absolute(a), _neg(V.absolute(a))),
    "tanh": lambda x: V.div(V.sub(V.sx_exp(V.mul(2, x)), 1),
                            V.add(V.sx_exp(V.mul(2, x)), 1)),
    "expit": lambda x: V.div(1, V.add(1, V.sx_exp(_neg(x)))),
}

IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def elementwise(f, inputs):
  objs = [asobj(x) for x in inputs]
  r = np.frompyfunc(f, len(objs), 1)(*objs)
  return r


def apply_uf(name, inputs):
  f = UF.get(name)
  if f is None:
    raise Unsupported(f"numpy function {name} on symbolic values")
  r = elementwise(f, inputs)
  if name in ("maximum", "minimum", "fmax", "fmin", "heaviside", "copysign"):
    return finish(r, True)
  return finish(r)


def _axes(axis, nd):
  if axis is None:
    return tuple(range(nd))
  if isinstance(axis, tuple):
    return tuple(int(a) % nd for a in axis)
  axis = int(axis)
  if not -nd <= axis < nd:
    raise np.exceptions.AxisError(axis, nd)
  return (axis % nd,)


def reduce_with(f, a, axis, keepdims=False, ident=None, name=""):
  """f: list of elements -> element (non-empty unless ident is given)."""
  a = asobj(a)
  if a.ndim == 0:
    return f([a[()]])
  axes = _axes(axis, a.ndim)
  rest = tuple(i for i in range(a.ndim) if i not in axes)
  t = a.transpose(rest + axes)
  n = 1
  for i in axes:
    n *= a.shape[i]
  rs = tuple(a.shape[i] for i in rest)
  t = t.reshape(rs + (n,))
  out = np.empty(rs, dtype=object)
  for idx in np.ndindex(rs):
    xs = list(t[idx])
    if not xs and ident is None:
      raise ValueError(f"zero-size array to reduction operation {name} which "
                       "has no identity")
    out[idx] = f(xs) if xs else norm(ident)
  if keepdims:
    out = out.reshape(tuple(1 if i in axes else a.shape[i]
                            for i in range(a.ndim)))
  return finish(out)


def fold(name):
  f = UF[name]

  def g(xs):
    if name == "add" and xs and all(kind(x) == "b" for x in xs):
      xs = [V.lift(x) for x in xs]
    return functools.reduce(f, xs)
  return g


def dispatch_ufunc(ufunc, method, inputs, kw):
  kw = dict(kw)
  out = kw.pop("out", None)
  where = kw.pop("where", True)
  dtype = V.real_type(kw.pop("dtype", None))
  for k in ("casting", "order", "subok"):
    kw.pop(k, None)
  name = ufunc.__name__
  if where is not True and not (isinstance(where, np._NoValue.__class__)):
    if method == "__call__":
      base = out[0] if out is not None else None
      r = dispatch_ufunc(ufunc, method, inputs, kw)
      if base is None:
        raise Unsupported("ufunc where= without out=")
      r = where_(where, r, base)
      out[0][...] = r
      return out[0]
    raise Unsupported("ufunc reduction where=")
  if method == "__call__":
    if name == "matmul":
      r = matmul(*inputs)
    elif name == "divmod":
      r = (apply_uf("floor_divide", inputs), apply_uf("remainder", inputs))
      return r
    elif name in ("vecdot",):
      raise Unsupported(name)
    elif any(isinstance(x, np.ndarray) and x.dtype.kind in "US"
             for x in inputs):
      return getattr(ufunc, method)(*inputs)
    else:
      r = apply_uf(name, inputs)
  elif method == "reduce":
    a = inputs[0]
    axis = kw.pop("axis", 0)
    keep = kw.pop("keepdims", False)
    init = kw.pop("initial", np._NoValue)
    ident = IDENT.get(name)
    f = fold(name)
    if init is not np._NoValue and init is not None:
      r = reduce_with(lambda xs: f([norm(init)] + xs), a, axis, bool(keep), init,
                      name)
    else:
      r = reduce_with(f, a, axis, bool(keep), ident, name)
  elif method == "accumulate":
    r = accumulate(UF[name], inputs[0], kw.pop("axis", 0))
  elif method == "outer":
    a, b = asobj(inputs[0]), asobj(inputs[1])
    r = apply_uf(name, (a.reshape(a.shape + (1,) * b.ndim), b))
  elif method == "at":
    a, idx = inputs[0], inputs[1]
    b = inputs[2] if len(inputs) > 2 else None
    idx = index(idx)
    idxs = np.arange(len(a))[idx] if not isinstance(idx, tuple) else None
    if idxs is None:
      raise Unsupported("ufunc.at with a tuple index")
    bb = np.broadcast_to(asobj(b), np.shape(idxs)) if b is not None else None
    for k, i in enumerate(np.ravel(idxs)):
      args = (a[int(i)],) + ((np.ravel(bb)[k],) if b is not None else ())
      a[int(i)] = apply_uf(name, args)
    return None
  else:
    raise Unsupported(f"ufunc method {method}")
  if dtype not in (None, object) and not isinstance(r, tuple):
    r = array(r).astype(dtype) if isinstance(r, np.ndarray) else scalar(
        norm(V.astype(r, dtype)))
  if out is not None:
    o = out[0] if isinstance(out, tuple) else out
    if o is not None:
      check_cast(o, r)
      o[...] = r
      return o
  return r


def check_cast(dst, src):
  """numpy's same-kind rule for in-place operations."""
  if not isinstance(dst, SymArr):
    return
  kd = array_kind(dst) if dst.size else "f"
  ks = array_kind(np.asarray(src, dtype=object).reshape(-1)) if np.size(
      src) else kd
  if ks in _RANK and kd in _RANK and _RANK[ks] > _RANK[kd] and dst.size:
    raise TypeError("Cannot cast ufunc output from a wider to a narrower kind "
                    f"({ks} to {kd})")


def accumulate(f, a, axis):
  a = asobj(a)
  out = np.empty(a.shape, dtype=object)
  ax = axis % a.ndim
  at, ot = np.moveaxis(a, ax, 0), np.moveaxis(out, ax, 0)
  acc = None
  for i in range(at.shape[0]):
    cur = at[i]
    if f is UF["add"]:
      cur = elementwise(lambda x: V.lift(x), (cur,))
    acc = cur if i == 0 else elementwise(f, (acc, cur))
    ot[i] = acc
  return finish(out)


def _dot1(xs, ys):
  if len(xs) != len(ys):
    raise ValueError(f"shapes ({len(xs)},) and ({len(ys)},) not aligned")
  acc = None
  for x, y in zip(xs, ys):
    t = V.mul(x, y)
    acc = t if acc is None else V.add(acc, t)
  return SymNum(Fraction(0)) if acc is None else acc


def dot(a, b, out=None):
  a, b = asobj(a), asobj(b)
  if a.ndim == 0 or b.ndim == 0:
    r = apply_uf("multiply", (a, b))
  else:
    bt = np.moveaxis(b, -2, -1) if b.ndim > 1 else b
    if a.shape[-1] != bt.shape[-1]:
      raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    o = np.empty(a.shape[:-1] + bt.shape[:-1], dtype=object)
    for i in np.ndindex(a.shape[:-1]):
      for j in np.ndindex(bt.shape[:-1]):
        o[i + j] = _dot1(a[i], bt[j])
    r = finish(o)
  if out is not None:
    out[...] = r
    return out
  return r


def matmul(a, b):
  a, b = asobj(a), asobj(b)
  if a.ndim == 0 or b.ndim == 0:
    raise ValueError("matmul: Input operand does not have enough dimensions")
  if a.ndim <= 2 and b.ndim <= 2:
    return dot(a, b)
  if a.ndim == 1 or b.ndim == 1:
    return dot(a, b)
  bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
  a = np.broadcast_to(a, bs + a.shape[-2:])
  b = np.broadcast_to(b, bs + b.shape[-2:])
  o = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
  for i in np.ndindex(bs):
    o[i] = asobj(dot(a[i], b[i]))
  return finish(o)


# ---------------------------------------------------------------------------
# indexing
def index(key):
  """Turns symbolic index objects into concrete ones (forking)."""
  if isinstance(key, tuple):
    return tuple(index(k) for k in key)
  if isinstance(key, SymNum):
    return key.__index__()
  if isinstance(key, SymBool):
    return bool(key)
  if isinstance(key, slice):
    return slice(*(None if v is None else v.__index__()
                   for v in (key.start, key.stop, key.step)))
  if isinstance(key, list):
    if any(isinstance(e, (SymNum, SymBool, SymArr, list)) for e in key):
      return index(array(key))
    return key
  if isinstance(key, SymArr) or isinstance(key, np.ndarray) and \
      key.dtype == object:
    flat = [x for x in key.view(np.ndarray).flat]
    if all(isinstance(x, (bool, np.bool_, SymBool)) for x in flat):
      if not flat:
        return np.zeros(key.shape, dtype=int) if key.ndim == 1 else \
            np.zeros(key.shape, dtype=bool)
      return np.array([bool(x) for x in flat], dtype=bool).reshape(key.shape)
    if all(isinstance(x, (SymNum, int, np.integer)) for x in flat):
      for x in flat:
        if isinstance(x, SymNum) and not x.isint:
          raise IndexError("arrays used as indices must be of integer (or "
                           "boolean) type")
      return np.array([x.__index__() for x in flat], dtype=int).reshape(
          key.shape)
    raise IndexError("arrays used as indices must be of integer (or boolean) "
                     "type")
  return key


class SymArr(np.ndarray):
  """An object array of normalised symbolic elements."""

  __array_priority__ = 2000

  def __array_finalize__(self, obj):
    pass

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    return dispatch_ufunc(ufunc, method, inputs, kw)

  def __array_function__(self, func, types, args, kwargs):
    return dispatch_function(func, args, kwargs)

  # -- access
  def __getitem__(self, key):
    r = np.ndarray.__getitem__(self, index(key))
    if isinstance(r, np.ndarray):
      return r
    return scalar(r)

  def __setitem__(self, key, val):
    key = index(key)
    if isinstance(val, np.ndarray) and val.ndim == 0:
      val = val[()]
    if isinstance(val, (np.ndarray, list, tuple)):
      val = asobj(val)
    else:
      val = norm(val)
      if V.is_sym(val) or isinstance(val, float) or kind(val) == "b":
        b = np.empty((), dtype=object)
        b[()] = val
        val = b
    # assignment casts to the kind of the array
    if self.size and isinstance(val, np.ndarray):
      k = array_kind(self)
      t = {"i": int, "f": float, "b": bool}.get(k)
      if t is not None and any(kind(x) != k for x in val.flat):
        o = np.empty(val.shape, dtype=object)
        for i in np.ndindex(val.shape):
          o[i] = norm(V.astype(val[i], t)) if kind(val[i]) != "o" else val[i]
        val = o
    base = self.view(np.ndarray)
    if isinstance(val, np.ndarray) and val.ndim == 0 and not isinstance(
        base[key], np.ndarray):
      val = val[()]
    np.ndarray.__setitem__(base, key, val)

  def __iter__(self):
    if self.ndim == 0:
      raise TypeError("iteration over a 0-d array")
    for i in range(self.shape[0]):
      yield self[i]

  def __contains__(self, x):
    return bool(V.sx_any(e for e in (self == x).flat_list()))

  def flat_list(self):
    return [scalar(x) for x in self.view(np.ndarray).reshape(-1)]

  def __bool__(self):
    if self.size == 1:
      return bool(self.view(np.ndarray).reshape(-1)[0])
    raise ValueError("The truth value of an array with more than one element "
                     "is ambiguous. Use a.any() or a.all()")

  def __float__(self):
    if self.size == 1:
      return V.SxFloat(self.view(np.ndarray).reshape(-1)[0])
    raise TypeError("only length-1 arrays can be converted to Python scalars")

  def __int__(self):
    if self.size == 1:
      return int(self.view(np.ndarray).reshape(-1)[0])
    raise TypeError("only length-1 arrays can be converted to Python scalars")

  def __index__(self):
    if self.ndim == 0:
      return self.view(np.ndarray)[()].__index__()
    raise TypeError("only integer scalar arrays can be converted to a scalar "
                    "index")

  def __deepcopy__(self, memo):
    return self.copy()

  def __repr__(self):
    return "SymArr" + repr(self.view(np.ndarray).tolist())

  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)

  @property
  def dtype(self):
    """The dtype the real array would have."""
    b = self.view(np.ndarray)
    ks = {kind(x) for x in b.flat}
    if ks <= {"b"} and ks:
      return np.dtype(bool)
    if ks <= {"b", "i"} and ks:
      return np.dtype(np.int64)
    if ks <= {"b", "i", "f"}:
      return np.dtype(np.float64)
    return b.dtype

  def item(self, *a):
    return scalar(self.view(np.ndarray).item(*a))

  def tolist(self):
    return self.view(np.ndarray).tolist()

  def tobytes(self, *a):
    del a
    cells = list(self.view(np.ndarray).reshape(-1))
    for x in cells:
      if not isinstance(x, (SymNum, SymBool, bool, int, float)):
        raise Unsupported("bytes of an object")
    return V.SymBytes(cells)

  def astype(self, t, *_, copy=True, **__):
    t = V.real_type(t)
    if t is object or isinstance(t, np.dtype) and t == object:
      return self.copy() if copy else self
    out = np.empty(self.shape, dtype=object)
    src = self.view(np.ndarray)
    for i in np.ndindex(self.shape):
      out[i] = norm(V.astype(src[i], t))
    return out.view(SymArr)

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return zeros(self.shape)

  # -- reductions and friends
  def dot(self, b, out=None):
    return dot(self, b, out)

  def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return F["mean"](self, axis=axis, keepdims=keepdims, out=out)

  def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return F["var"](self, axis=axis, ddof=ddof, keepdims=keepdims)

  def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return F["std"](self, axis=axis, ddof=ddof, keepdims=keepdims)

  def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return F["sum"](self, axis=axis, keepdims=keepdims, out=out)

  def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return F["prod"](self, axis=axis, keepdims=keepdims)

  def max(self, axis=None, out=None, keepdims=False, **k):
    return F["max"](self, axis=axis, keepdims=keepdims, **k)

  def min(self, axis=None, out=None, keepdims=False, **k):
    return F["min"](self, axis=axis, keepdims=keepdims, **k)

  def any(self, axis=None, out=None, keepdims=False, **k):
    return F["any"](self, axis=axis, keepdims=keepdims)

  def all(self, axis=None, out=None, keepdims=False, **k):
    return F["all"](self, axis=axis, keepdims=keepdims)

  def argmin(self, axis=None, out=None, **k):
    return F["argmin"](self, axis=axis)

  def argmax(self, axis=None, out=None, **k):
    return F["argmax"](self, axis=axis)

  def argsort(self, axis=-1, kind=None, order=None, **k):
    return F["argsort"](self, axis=axis)

  def sort(self, axis=-1, kind=None, order=None, **k):
    self.view(np.ndarray)[...] = asobj(F["sort"](self, axis=axis))

  def cumsum(self, axis=None, dtype=None, out=None):
    return F["cumsum"](self, axis=axis)

  def cumprod(self, axis=None, dtype=None, out=None):
    return F["cumprod"](self, axis=axis)

  def clip(self, min=None, max=None, out=None, **k):
    return F["clip"](self, min, max, out=out)

  def round(self, decimals=0, out=None):
    return F["round"](self, decimals)

  def nonzero(self):
    return F["nonzero"](self)

  def fill(self, v):
    self[...] = v

  def conj(self):
    return self

  def trace(self, *a, **k):
    return F["trace"](self, *a, **k)

  def take(self, idx, axis=None, **k):
    return F["take"](self, idx, axis=axis)

  def ptp(self, axis=None, **k):
    return self.max(axis=axis) - self.min(axis=axis)


# ---------------------------------------------------------------------------
# creation
def full(shape, v, dtype=None, **_):
  dtype = V.real_type(dtype)
  shape = _shape(shape)
  out = np.empty(shape, dtype=object)
  if isinstance(v, (np.ndarray, list, tuple)):
    out[...] = asobj(v)
  else:
    v = norm(v)
    for i in np.ndindex(out.shape):
      out[i] = v
  r = out.view(SymArr)
  return r.astype(dtype) if dtype is not None else r


def _shape(s):
  if isinstance(s, (tuple, list)):
    return tuple(_dim(x) for x in s)
  if isinstance(s, np.ndarray) and s.ndim:
    return tuple(_dim(x) for x in s)
  return (_dim(s),)


def _dim(x):
  if isinstance(x, (float, np.floating)) or isinstance(
      x, SymNum) and not x.isint:
    raise TypeError("'float' object cannot be interpreted as an integer")
  return x.__index__()


def _dtype_check(dtype):
  dtype = V.real_type(dtype)
  if dtype is not None and not isinstance(dtype, (type, np.dtype, str)):
    raise TypeError(f"Cannot interpret '{dtype}' as a data type")
  return dtype


def zeros(shape, dtype=float, *a, **k):
  return full(shape, 0, _dtype_check(dtype))


def ones(shape, dtype=float, *a, **k):
  return full(shape, 1, _dtype_check(dtype))


def empty(shape, dtype=float, *a, **k):
  """Unconstrained contents (uninitialised memory); numbers only."""
  dtype = _dtype_check(dtype)
  if dtype in (object, bool):
    return full(shape, 0, dtype) if dtype is bool else np.empty(
        _shape(shape), dtype=object).view(SymArr)
  return full(shape, SymNum(Fraction(-7777)), dtype)


def _like(v):
  def f(a, *r, dtype=None, shape=None, **k):
    a = array(a, copy=False)
    sh = a.shape if shape is None else shape
    if v == "full":
      out = full(sh, r[0])
    else:
      out = full(sh, v)
    if dtype is None and isinstance(a, SymArr) and a.size:
      dtype = {"i": int, "f": float, "b": bool}.get(array_kind(a))
    elif dtype is None:
      dtype = float
    return out.astype(dtype) if dtype is not None else out
  return f


def arange(*args, dtype=None, **_):
  a = [x for x in args]
  start, stop, step = 0, None, 1
  if len(a) == 1:
    stop = a[0]
  elif len(a) == 2:
    start, stop = a
  else:
    start, stop, step = a
  start, stop, step = [x.concretize() if isinstance(x, SymNum) and x.isint
                       else x for x in (start, stop, step)]
  if all(isinstance(x, (int, np.integer)) for x in (start, stop, step)):
    xs = range(start, stop, step)
  else:
    n = V.SxInt(V.sx_ceil(V.div(V.sub(stop, start), step)))
    xs = [V.add(start, V.mul(i, step)) for i in range(n)]
    dtype = dtype or float
  r = array(list(xs))
  if r.size == 0:
    r = np.empty(0, dtype=object).view(SymArr)
  return r.astype(dtype) if V.real_type(dtype) is not None else r


def linspace(start, stop, num=50, endpoint=True, **_):
  num = int(num)
  den = num - 1 if endpoint else num
  return array([V.add(start, V.div(V.mul(V.sub(stop, start), i), den))
                if den else start for i in range(num)]).astype(float)


def eye(n, m=None, k=0, dtype=float, **_):
  m = n if m is None else m
  r = zeros((n, m), dtype)
  for i in range(n):
    if 0 <= i + k < m:
      r[i, i + k] = 1
  return r


# ---------------------------------------------------------------------------
# functions
F = {}


def fn(*names):
  def deco(f):
    for n in names:
      F[n] = f
    return f
  return deco


for _n in UF:
  if UF[_n] is not None:
    F[_n] = (lambda n: lambda *a, out=None, where=True, **k: dispatch_ufunc(
        _Named(n), "__call__", a, dict(k, out=None if out is None else (
            out if isinstance(out, tuple) else (out,)), where=where)))(_n)
F["abs"] = F["absolute"]
F["pow"] = F["power"]


class _Named:

  def __init__(self, n):
    self.__name__ = n


def _put(out, r):
  if out is None:
    return r
  out[...] = r
  return out


@fn("sum")
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=None, **_):
  if where is not None:
    raise Unsupported("sum where=")
  if not isinstance(a, np.ndarray) and hasattr(a, "__next__"):
    return V.sx_sum(a)
  if keepdims is np._NoValue:
    keepdims = False
  f = fold("add")
  r = reduce_with(f if initial in (None, np._NoValue) else
                  (lambda xs: f([norm(initial)] + xs)), a, axis, keepdims, 0)
  if not np.size(a) and isinstance(r, SymArr):
    r = r.astype(float)
  return _put(out, r)


@fn("prod")
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **_):
  return reduce_with(fold("multiply"), a, axis, bool(keepdims) if keepdims
                     is not np._NoValue else False, 1)


def _cnt(xs):
  return SymNum(Fraction(len(xs)), True)


def _meanl(xs):
  if not xs:
    return V.NAN
  return V.div(fold("add")(xs), _cnt(xs))


@fn("mean")
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **_):
  if where not in (None, np._NoValue):
    raise Unsupported("mean where=")
  if keepdims is np._NoValue:
    keepdims = False
  return _put(out, reduce_with(_meanl, a, axis, keepdims, V.NAN))


@fn("nanmean")
def f_nanmean(a, axis=None, **_):
  return reduce_with(lambda xs: _meanl([x for x in xs if not V.isnan_plain(x)]),
                     a, axis, False, V.NAN)


@fn("nansum")
def f_nansum(a, axis=None, **_):
  return reduce_with(lambda xs: fold("add")(
      [SymNum(Fraction(0)) if V.isnan_plain(x) else x for x in xs]), a, axis,
                     False, 0)


def _nanext(name):
  def g(a, axis=None, **_):
    def h(xs):
      ys = [x for x in xs if not V.isnan_plain(x)]
      return fold(name)(ys) if ys else V.NAN
    return reduce_with(h, a, axis, False, None, name)
  return g


F["nanmin"] = _nanext("minimum")
F["nanmax"] = _nanext("maximum")


def _varl(ddof):
  def g(xs):
    if not xs:
      return V.NAN
    m = _meanl(xs)
    s = fold("add")([V.mul(V.sub(x, m), V.sub(x, m)) for x in xs])
    n = len(xs) - ddof
    return V.div(s, SymNum(Fraction(max(n, 0)), True))
  return g


@fn("var")
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
          correction=None, **_):
  if keepdims is np._NoValue:
    keepdims = False
  if correction not in (None, np._NoValue):
    ddof = correction
  if isinstance(ddof, SymNum):
    ddof = int(ddof)
  return reduce_with(_varl(ddof), a, axis, keepdims, V.NAN)


@fn("std")
def f_std(*a, **k):
  r = f_var(*a, **k)
  return F["sqrt"](r)


@fn("cov")
def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **_):
  m = asobj(m)
  if m.ndim == 1:
    m = m.reshape(1, -1)
  elif not rowvar:
    m = m.T
  if y is not None:
    m = np.concatenate([m, asobj(y).reshape(1, -1)])
  if ddof is None:
    ddof = 0 if bias else 1
  k, n = m.shape
  out = np.empty((k, k), dtype=object)
  mus = [_meanl(list(r)) for r in m]
  for i in range(k):
    for j in range(k):
      out[i, j] = V.div(_dot1([V.sub(x, mus[i]) for x in m[i]],
                              [V.sub(x, mus[j]) for x in m[j]]), n - ddof)
  return finish(out.squeeze())


@fn("average")
def f_average(a, axis=None, weights=None, returned=False, **_):
  if weights is None:
    return f_mean(a, axis)
  if returned:
    raise Unsupported("average returned=")
  w = asobj(weights)
  a = asobj(a)
  if w.ndim != a.ndim:
    if axis is None or w.ndim != 1:
      raise TypeError("Axis must be specified when shapes of a and weights "
                      "differ.")
    sh = [1] * a.ndim
    sh[axis] = len(w)
    w = np.broadcast_to(w.reshape(sh), a.shape)
  s = f_sum(w.view(SymArr) if w.ndim else w, axis)
  if V.is_sym(s) or V.is_plain(s):
    if bool(s == 0):
      raise ZeroDivisionError("Weights sum to zero, can't be normalized")
  return apply_uf("divide", (f_sum(apply_uf("multiply", (a, w)), axis), s))


def _extl(name):
  f = fold(name)

  def g(a, axis=None, out=None, keepdims=False, initial=None, where=None, **_):
    if keepdims is np._NoValue:
      keepdims = False
    h = f
    if initial not in (None, np._NoValue):
      h = lambda xs: f([norm(initial)] + xs)
    return _put(out, reduce_with(h, a, axis, keepdims,
                                 None if initial in (None, np._NoValue)
                                 else initial, name))
  return g


F["max"] = F["amax"] = _extl("maximum")
F["min"] = F["amin"] = _extl("minimum")


@fn("ptp")
def f_ptp(a, axis=None, **_):
  return F["max"](a, axis) - F["min"](a, axis)


@fn("any")
def f_any(a, axis=None, out=None, keepdims=False, **_):
  if keepdims is np._NoValue:
    keepdims = False
  return reduce_with(lambda xs: V.lor(*xs), a, axis, keepdims, False)


@fn("all")
def f_all(a, axis=None, out=None, keepdims=False, **_):
  if keepdims is np._NoValue:
    keepdims = False
  return reduce_with(lambda xs: V.land(*xs), a, axis, keepdims, True)


@fn("alltrue")
def f_alltrue(a, **k):
  return f_all(a, **k)


@fn("count_nonzero")
def f_count(a, axis=None, keepdims=False, **_):
  return reduce_with(lambda xs: fold("add")(
      [V.lift(V.lnot(V.lnot(x))) for x in xs]), a, axis, keepdims, 0)


def _argext(better):
  def pick(xs):
    for i, x in enumerate(xs):
      if V.isnan_plain(x):
        return SymNum(Fraction(i), True)
    best = 0
    for i in range(1, len(xs)):
      if bool(better(xs[i], xs[best])):
        best = i
    return SymNum(Fraction(best), True)

  def g(a, axis=None, out=None, keepdims=False, **_):
    r = reduce_with(pick, a, axis, False, None, "argmin")
    return r
  return g


F["argmin"] = _argext(V.lt)
F["argmax"] = _argext(lambda a, b: V.lt(b, a))


def _nanargext(fill, name):
  def g(a, axis=None, out=None, **_):
    a = asobj(a)
    filled = elementwise(lambda x: fill if V.isnan_plain(V._fin(norm(x)))
                         else x, (a,))
    return F[name](wrap(filled), axis)
  return g


F["nanargmin"] = _nanargext(V.INF, "argmin")
F["nanargmax"] = _nanargext(-V.INF, "argmax")


def order(xs):
  """Stable sorting permutation (forks on comparisons); nan last."""
  def cmp(i, j):
    a, b = xs[i], xs[j]
    if V.isnan_plain(a) or V.isnan_plain(b):
      return (V.isnan_plain(a) > V.isnan_plain(b)) - (
          V.isnan_plain(a) < V.isnan_plain(b))
    if bool(V.lt(a, b)):
      return -1
    if bool(V.lt(b, a)):
      return 1
    return 0
  return sorted(range(len(xs)), key=functools.cmp_to_key(cmp))


def sort_list(xs):
  """Sorted values by a merging network when all are finite, else by forks."""
  xs = list(xs)
  if any(isinstance(x, float) for x in xs):
    return [xs[i] for i in order(xs)]
  n = len(xs)
  for i in range(n):
    for j in range(n - 1 - i):
      a, b = xs[j], xs[j + 1]
      c = V.lt(b, a)
      xs[j], xs[j + 1] = V.ite(c, b, a), V.ite(c, a, b)
  return xs


def _along(f, a, axis):
  a = asobj(a)
  if axis is None:
    a, axis = a.reshape(-1), 0
  t = np.moveaxis(a, axis, -1)
  out = np.empty(t.shape, dtype=object)
  for i in np.ndindex(t.shape[:-1]):
    for k, x in enumerate(f(list(t[i]))):
      out[i + (k,)] = x
  return finish(np.moveaxis(out, -1, axis))


@fn("sort")
def f_sort(a, axis=-1, **_):
  return _along(sort_list, a, axis)


@fn("argsort")
def f_argsort(a, axis=-1, **_):
  return _along(lambda xs: [SymNum(Fraction(i), True) for i in order(xs)], a,
                axis)


@fn("searchsorted")
def f_searchsorted(a, v, side="left", **_):
  xs = [x for x in asobj(a)]

  def one(y):
    c = SymNum(Fraction(0), True)
    for x in xs:
      c = V.add(c, V.lift(V.lt(x, y) if side == "left" else V.le(x, y)))
    return c
  return finish(elementwise(one, (v,)))


@fn("median")
def f_median(a, axis=None, **_):
  def g(xs):
    if any(V.isnan_plain(x) for x in xs):
      return V.NAN
    s = sort_list(xs)
    n = len(s)
    return s[n // 2] if n % 2 else V.div(V.add(s[n // 2 - 1], s[n // 2]), 2)
  return reduce_with(g, a, axis, False, V.NAN)


@fn("quantile")
def f_quantile(a, q, axis=None, method="linear", **_):
  def g(xs, qq):
    s = sort_list(xs)
    n = len(s)
    pos = V.mul(qq, n - 1)
    lo = V.SxInt(V.sx_floor(pos))
    lo = lo if isinstance(lo, int) else lo.concretize()
    if method in ("lower",):
      return s[lo]
    if method in ("higher",):
      hi = V.SxInt(V.sx_ceil(pos))
      return s[hi if isinstance(hi, int) else hi.concretize()]
    if method != "linear":
      raise Unsupported("quantile method")
    hi = min(lo + 1, n - 1)
    return V.add(s[lo], V.mul(V.sub(pos, lo), V.sub(s[hi], s[lo])))
  if isinstance(q, (list, tuple, np.ndarray)) and np.ndim(q):
    return array([f_quantile(a, x, axis, method) for x in q])
  return reduce_with(lambda xs: g(xs, q), a, axis, False, V.NAN)


@fn("percentile")
def f_percentile(a, q, axis=None, method="linear", **_):
  return f_quantile(a, apply_uf("divide", (q, 100)), axis, method)


@fn("clip")
def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **_):
  lo = a_min if a_min is not None else min
  hi = a_max if a_max is not None else max
  r = a
  if lo is not None:
    r = apply_uf("maximum", (r, lo))
  if hi is not None:
    r = apply_uf("minimum", (r, hi))
  if isinstance(a, np.ndarray) and a.ndim == 0:
    r = scalar(norm(r))
  return _put(out, r)


@fn("where")
def where_(c, x=None, y=None):
  if x is None and y is None:
    return f_nonzero(c)
  def g(c, a, b):
    if isinstance(c, SymNum):
      c = c != 0
    if isinstance(c, SymBool) and (kind(a) == "o" or kind(b) == "o"):
      c = bool(c)
    return V.ite(c, a, b)
  return finish(elementwise(g, (c, x, y)), True)


@fn("select")
def f_select(condlist, choicelist, default=0):
  r = default
  for c, v in reversed(list(zip(condlist, choicelist))):
    r = where_(c, v, r)
  return r


@fn("nonzero")
def f_nonzero(a):
  a = asobj(a)
  m = np.array([bool(V.lnot(V.lnot(x))) for x in a.reshape(-1)],
               dtype=bool).reshape(a.shape)
  return tuple(wrap(i) for i in np.nonzero(m))


@fn("flatnonzero")
def f_flatnonzero(a):
  return f_nonzero(asobj(a).reshape(-1))[0]


@fn("argwhere")
def f_argwhere(a):
  return array(list(zip(*f_nonzero(a))))


@fn("isclose")
def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  def g(x, y):
    x, y = V._fin(V.lift(x)), V._fin(V.lift(y))
    if isinstance(x, float) or isinstance(y, float):
      if V.isnan_plain(x) or V.isnan_plain(y):
        return bool(equal_nan and V.isnan_plain(x) and V.isnan_plain(y))
      return isinstance(x, float) and isinstance(y, float) and x == y
    return V.le(V.absolute(V.sub(x, y)),
                V.add(atol, V.mul(rtol, V.absolute(y))))
  return finish(elementwise(g, (a, b)))


@fn("allclose")
def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  r = f_isclose(a, b, rtol, atol, equal_nan)
  return f_all(r)


@fn("array_equal")
def f_array_equal(a, b, equal_nan=False):
  a, b = asobj(a), asobj(b)
  if a.shape != b.shape:
    return False
  return f_all(elementwise(_eq, (a, b)))


F["array_equiv"] = f_array_equal


@fn("cumsum")
def f_cumsum(a, axis=None, dtype=None, out=None):
  if axis is None:
    a, axis = asobj(a).reshape(-1), 0
  return accumulate(UF["add"], a, axis)


@fn("cumprod")
def f_cumprod(a, axis=None, dtype=None, out=None):
  if axis is None:
    a, axis = asobj(a).reshape(-1), 0
  return accumulate(UF["multiply"], a, axis)


@fn("diff")
def f_diff(a, n=1, axis=-1, **_):
  a = asobj(a)
  for _i in range(n):
    t = np.moveaxis(a, axis, 0)
    a = np.moveaxis(elementwise(_sub, (t[1:], t[:-1])), 0, axis)
  return finish(a)


F["dot"] = dot
F["matmul"] = matmul


@fn("vdot")
def f_vdot(a, b):
  return dot(asobj(a).reshape(-1), asobj(b).reshape(-1))


@fn("inner")
def f_inner(a, b):
  a, b = asobj(a), asobj(b)
  if a.ndim == 0 or b.ndim == 0:
    return apply_uf("multiply", (a, b))
  return dot(a, np.moveaxis(b, -1, -2) if b.ndim > 1 else b)


@fn("outer")
def f_outer(a, b, out=None):
  return apply_uf("multiply", (asobj(a).reshape(-1, 1), asobj(b).reshape(1, -1)))


@fn("tensordot")
def f_tensordot(a, b, axes=2):
  if axes != 1:
    raise Unsupported("tensordot")
  return dot(a, b)


@fn("einsum")
def f_einsum(spec, *ops, **_):
  if not isinstance(spec, str) or "..." in spec:
    raise Unsupported("einsum form")
  spec = spec.replace(" ", "")
  ins, _, outs = spec.partition("->")
  ins = ins.split(",")
  if "->" not in spec:
    cnt = {}
    for c in "".join(ins):
      cnt[c] = cnt.get(c, 0) + 1
    outs = "".join(sorted(c for c in cnt if cnt[c] == 1))
  ops = [asobj(o) for o in ops]
  dims = {}
  for s, o in zip(ins, ops):
    if len(s) != o.ndim:
      raise ValueError("einsum: operand has wrong number of dimensions")
    for c, d in zip(s, o.shape):
      if dims.setdefault(c, d) != d:
        raise ValueError("einsum: dimensions mismatch")
  rest = [c for c in dims if c not in outs]
  out = np.empty(tuple(dims[c] for c in outs), dtype=object)
  for i in np.ndindex(out.shape):
    env = dict(zip(outs, i))
    acc = SymNum(Fraction(0), True)
    for j in itertools.product(*(range(dims[c]) for c in rest)):
      env.update(zip(rest, j))
      t = None
      for s, o in zip(ins, ops):
        x = o[tuple(env[c] for c in s)]
        t = x if t is None else V.mul(t, x)
      acc = V.add(acc, t)
    out[i] = acc
  return finish(out)


@fn("trace")
def f_trace(a, offset=0, **_):
  return f_sum(wrap(np.diagonal(asobj(a), offset)))


@fn("diag")
def f_diag(v, k=0):
  v = asobj(v)
  if v.ndim == 1:
    n = len(v) + abs(k)
    t = {"i": int, "b": bool}.get(array_kind(v)) if v.size else float
    r = zeros((n, n), t or float)
    for i, x in enumerate(v):
      r[(i, i + k) if k >= 0 else (i - k, i)] = x
    return r
  return finish(np.diagonal(v, k).copy())


@fn("diagflat")
def f_diagflat(v, k=0):
  return f_diag(asobj(v).reshape(-1), k)


@fn("unique")
def f_unique(a, return_index=False, return_inverse=False, return_counts=False,
             axis=None, **_):
  a = asobj(a)
  if axis not in (None, 0):
    raise Unsupported("unique axis")
  rows = [((x,) if a.ndim == 1 else tuple(x.reshape(-1)))
          for x in (a if axis == 0 else a.reshape(-1))] if axis == 0 else [
              (x,) for x in a.reshape(-1)]

  def cmp(i, j):
    for x, y in zip(rows[i], rows[j]):
      if bool(_eq(x, y)):
        continue
      return -1 if bool(V.lt(x, y)) else 1
    return 0
  idx = sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
  groups = []
  for i in idx:
    if groups and cmp(groups[-1][0], i) == 0:
      groups[-1].append(i)
    else:
      groups.append([i])
  if axis == 0:
    out = finish(a[[g[0] for g in groups]]) if groups else finish(a[:0])
  else:
    o = np.empty(len(groups), dtype=object)
    for k, g in enumerate(groups):
      o[k] = rows[g[0]][0]
    out = finish(o)
  res = [out]
  if return_index:
    res.append(array([min(g) for g in groups]))
  if return_inverse:
    inv = [0] * len(rows)
    for k, g in enumerate(groups):
      for i in g:
        inv[i] = k
    res.append(array(inv))
  if return_counts:
    res.append(array([len(g) for g in groups]))
  return res[0] if len(res) == 1 else tuple(res)


@fn("bincount")
def f_bincount(x, weights=None, minlength=0):
  xs = [e.__index__() for e in asobj(x)]
  n = max([e + 1 for e in xs] + [minlength])
  r = zeros(n, int if weights is None else float)
  for k, i in enumerate(xs):
    r[i] = r[i] + (1 if weights is None else asobj(weights)[k])
  return r


def _eltkind(xs):
  ks = [array_kind(x) for x in xs if x.size]
  return ks


@fn("concatenate", "concat")
def f_concatenate(arrs, axis=0, out=None, **_):
  arrs = [asobj(a) for a in arrs]
  return finish(np.concatenate(arrs, axis=axis), True)


def _stacker(name):
  def g(arrs, *a, **k):
    k.pop("dtype", None)
    k.pop("casting", None)
    arrs = [asobj(x) for x in arrs]
    return finish(getattr(np, name)(arrs, *a, **k), True)
  return g


for _n in ("stack", "hstack", "vstack", "column_stack", "dstack"):
  F[_n] = _stacker(_n)
F["row_stack"] = F["vstack"]


@fn("append")
def f_append(a, v, axis=None):
  a, v = asobj(a), asobj(v)
  if axis is None:
    a, v, axis = a.reshape(-1), v.reshape(-1), 0
  return f_concatenate((a, v), axis=axis)


@fn("insert")
def f_insert(a, obj, v, axis=None):
  a = asobj(a)
  k = array_kind(a)
  r = np.insert(a, index(obj), asobj(v), axis=axis)
  t = {"i": int, "f": float, "b": bool}.get(k)
  r = r.view(SymArr)
  return r.astype(t) if t is not None and a.size else promote(r)


@fn("delete")
def f_delete(a, obj, axis=None):
  return finish(np.delete(asobj(a), index(obj), axis=axis))


@fn("tile")
def f_tile(a, reps):
  reps = tuple(int(r) for r in reps) if isinstance(
      reps, (tuple, list, np.ndarray)) else int(reps)
  return finish(np.tile(asobj(a), reps))


@fn("repeat")
def f_repeat(a, reps, axis=None):
  if isinstance(reps, (np.ndarray, list, tuple)):
    reps = [int(r) for r in reps]
  else:
    reps = int(reps)
  return finish(np.repeat(asobj(a), reps, axis=axis))


@fn("take")
def f_take(a, idx, axis=None, **_):
  return finish(np.take(asobj(a), index(array(idx)), axis=axis))


@fn("take_along_axis")
def f_taa(a, idx, axis=-1):
  return finish(np.take_along_axis(asobj(a), index(idx), axis))


@fn("compress")
def f_compress(c, a, axis=None, **_):
  return finish(np.compress(index(array(c)), asobj(a), axis=axis))


@fn("extract")
def f_extract(c, a):
  return finish(asobj(a).reshape(-1)[index(array(c)).reshape(-1)])


@fn("round", "around")
def f_round(a, decimals=0, out=None):
  if decimals:
    raise Unsupported("round to digits")
  return apply_uf("rint", (a,))


@fn("nan_to_num")
def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
  big = 1.7976931348623157e308

  def g(x):
    x = V._fin(norm(x))
    if V.isnan_plain(x):
      return norm(nan)
    if isinstance(x, float):
      return norm((big if posinf is None else posinf) if x > 0 else
                  (-big if neginf is None else neginf))
    return x
  return finish(elementwise(g, (a,)))


@fn("array", "asanyarray_")
def f_array(*a, **k):
  return array(*a, **k)


@fn("asarray", "asanyarray", "ascontiguousarray", "asarray_chkfinite")
def f_asarray(x, dtype=None, **_):
  return array(x, dtype, copy=False)


@fn("copy")
def f_copy(x, **_):
  return array(x)


F["zeros"] = zeros
F["ones"] = ones
F["empty"] = empty
F["full"] = full
F["arange"] = arange
F["linspace"] = linspace
F["eye"] = eye
F["identity"] = lambda n, dtype=float, **_: eye(n, dtype=dtype)
F["zeros_like"] = _like(0)
F["ones_like"] = _like(1)
F["empty_like"] = _like(-7777)
F["full_like"] = _like("full")


@fn("fromiter")
def f_fromiter(it, dtype=None, count=-1, **_):
  return array(list(it), dtype)


@fn("meshgrid")
def f_meshgrid(*xs, **k):
  return [finish(x) for x in np.meshgrid(*[asobj(x) for x in xs], **k)]


@fn("broadcast_to")
def f_broadcast_to(a, shape, **_):
  return finish(np.broadcast_to(asobj(a), _shape(shape)).copy())


@fn("broadcast_arrays")
def f_broadcast_arrays(*xs, **_):
  return [finish(x.copy()) for x in np.broadcast_arrays(*[asobj(x) for x in xs])]


@fn("isin", "in1d")
def f_isin(a, b, invert=False, **_):
  bs = [x for x in asobj(b).reshape(-1)]
  r = finish(elementwise(lambda x: V.lor(*[_eq(x, y) for y in bs]), (a,)))
  return apply_uf("logical_not", (r,)) if invert else r


@fn("setdiff1d")
def f_setdiff1d(a, b, **_):
  a = f_unique(a)
  return a[F["logical_not"](f_isin(a, b))]


@fn("ndim")
def f_ndim(x):
  if isinstance(x, np.ndarray):
    return x.ndim
  if V.is_sym(x):
    return 0
  return len(shape_of(x))


@fn("shape")
def f_shape(x):
  return x.shape if isinstance(x, np.ndarray) else shape_of(x)


@fn("size")
def f_size(x, axis=None):
  s = f_shape(x)
  if axis is not None:
    return s[axis]
  n = 1
  for d in s:
    n *= d
  return n


@fn("isscalar")
def f_isscalar(x):
  return V.is_sym(x) or np.isscalar(x)


@fn("isreal", "isrealobj")
def f_isreal(x):
  return True


@fn("iscomplexobj")
def f_iscomplexobj(x):
  return False


@fn("iscomplex")
def f_iscomplex(x):
  return False


@fn("real", "real_if_close")
def f_real(x, *a, **k):
  return x


@fn("atleast_1d")
def f_atleast_1d(x):
  x = array(x, copy=False)
  return x.reshape(1) if x.ndim == 0 else x


@fn("atleast_2d")
def f_atleast_2d(x):
  x = array(x, copy=False)
  return x.reshape(1, -1) if x.ndim < 2 else x


@fn("apply_along_axis")
def f_apply_along(func, axis, a, *args, **k):
  a = array(a, copy=False)
  t = np.moveaxis(asobj(a), axis, -1)
  res = [func(t[i].view(SymArr), *args, **k) for i in np.ndindex(t.shape[:-1])]
  r = array(res).reshape(t.shape[:-1] + np.shape(res[0]))
  return r


@fn("polyval")
def f_polyval(p, x):
  r = 0
  for c in p:
    r = r * x + c
  return r


# ---- linear algebra --------------------------------------------------------
L = {}


def _sq(a):
  a = asobj(a)
  if a.ndim != 2 or a.shape[0] != a.shape[1]:
    raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
  return a


def det(a):
  a = _sq(a)
  n = len(a)
  if n == 0:
    return SymNum(Fraction(1))
  if n == 1:
    return a[0, 0]
  acc = None
  for j in range(n):
    m = np.delete(np.delete(a, 0, 0), j, 1)
    t = V.mul(a[0, j], det(m))
    acc = t if acc is None else (V.sub(acc, t) if j % 2 else V.add(acc, t))
  return acc


def _simp(x):
  if isinstance(x, SymNum) and not x.const() and x.pinf is None:
    return V.mknum(z3.simplify(x.v, som=True), x.isint)
  return x


def inv(a):
  a = _sq(a)
  n = len(a)
  if n > 4:
    raise Unsupported("inverse of a matrix beyond 4x4")
  d = det(a)
  if bool(d == 0):
    raise np.linalg.LinAlgError("Singular matrix")
  out = np.empty((n, n), dtype=object)
  for i in range(n):
    for j in range(n):
      m = np.delete(np.delete(a, j, 0), i, 1)
      c = det(m)
      c = V.lift(c)
      out[i, j] = V.div(c if (i + j) % 2 == 0 else _neg(c), d)
  return finish(out)


def solve(a, b):
  return dot(inv(a), b)


def _eigs(a):
  a = _sq(a)
  n = len(a)
  if n == 1:
    return [V.astype(a[0, 0], float)]
  off = [(i, j) for i in range(n) for j in range(n) if i != j]
  if all(isinstance(a[i], SymNum) and a[i].const() and a[i].v == 0
         for i in off):
    return [V.astype(a[i, i], float) for i in range(n)]
  if n > 2:
    raise Unsupported("eigenvalues beyond 2x2")
  c = core.ctx()
  tr = V.add(a[0, 0], a[1, 1])
  dt = det(a)
  dsc = V.sub(V.mul(tr, tr), V.mul(4, dt))
  if bool(V.lt(dsc, 0)):
    raise Unsupported("complex eigenvalues")
  k = c.counters.get("eig", 0)
  c.counters["eig"] = k + 1
  x, y = z3.Real(f"eig!{k}a"), z3.Real(f"eig!{k}b")
  c.fact(x + y == tr.z())
  c.fact(x * y == dt.z())
  return [SymNum(x), SymNum(y)]


class _Opaque:
  """A result part the analysis does not model."""

  def __init__(self, what):
    self._what = what

  def __getattr__(self, n):
    raise Unsupported(f"use of {self._what}")

  def __getitem__(self, n):
    raise Unsupported(f"use of {self._what}")


class _EigResult(tuple):
  eigenvalues = property(lambda s: s[0])
  eigenvectors = property(lambda s: s[1])


L["det"] = lambda a: scalar(norm(det(a)))
L["inv"] = inv
L["pinv"] = lambda a, **_: inv(a)
L["solve"] = solve
L["eigvals"] = lambda a: array(_eigs(a))


def _tidy(x):
  """The same value as one fraction of polynomials."""
  x = V.lift(x)
  if isinstance(x, SymNum) and not x.const() and x.pinf is None:
    f = ratfun.Forms()
    try:
      n, d = f.form(x.z())
    except ratfun.TooBig:
      return x
    den = [f.expr(dict(k)) for k, e in d.items() for _ in range(e)]
    e = f.expr(n)
    return V.mknum(e / z3.Product(den) if den else e, False)
  return x


def _eigvalsh(a, *_, **__):
  """Eigenvalues of the symmetric matrix with a's lower triangle, in order."""
  a = _sq(a)
  n = len(a)
  if n == 1 or n > 2:
    return array(_eigs(a))
  p, q, r = (_tidy(x) for x in (a[0, 0], a[1, 0], a[1, 1]))
  if any(isinstance(x, float) for x in (p, q, r)):
    raise np.linalg.LinAlgError("Eigenvalues did not converge")
  if q.const() and q.v == 0:
    return array(sort_list([V.astype(p, float), V.astype(r, float)]))
  c = core.ctx()
  tr = _tidy(V.add(p, r))
  dt = _tidy(V.sub(V.mul(p, r), V.mul(q, q)))
  table = c.memo.setdefault(("eigs",), [])
  for t, e, lo, hi in table:
    if ratfun.same(t, tr.z()) and ratfun.same(e, dt.z()):
      return array([SymNum(lo), SymNum(hi)])
  k = len(table)
  lo, hi = z3.Real(f"eigh!{k}lo"), z3.Real(f"eigh!{k}hi")
  c.fact(z3.And(lo <= hi, lo + hi == tr.z(), lo * hi == dt.z()))
  c.fact(z3.And((lo > 0) == z3.And(tr.z() > 0, dt.z() > 0),
                (lo >= 0) == z3.And(tr.z() >= 0, dt.z() >= 0)))
  table.append((tr.z(), dt.z(), lo, hi))
  c.memo.setdefault(("fn", "eigh"), []).append(((tr.z(), dt.z()), lo))
  return array([SymNum(lo), SymNum(hi)])


L["eigvalsh"] = _eigvalsh
L["eig"] = lambda a: _EigResult((array(_eigs(a)), _Opaque("eigenvectors")))
L["eigh"] = lambda a, *_, **__: _EigResult((_eigvalsh(a),
                                            _Opaque("eigenvectors")))


def _slogdet(a):
  d = det(a)
  if bool(V.eq(d, 0)):
    return SymNum(Fraction(0)), -V.INF
  if bool(V.lt(d, 0)):
    return SymNum(Fraction(-1)), V.sx_log(V.neg(d))
  return SymNum(Fraction(1)), V.sx_log(d)


L["slogdet"] = _slogdet


def _norm(a, ord=None, axis=None, keepdims=False):
  if ord not in (None, 2, "fro"):
    if ord == 1:
      return f_sum(apply_uf("absolute", (a,)), axis)
    if ord in (V.INF, np.inf):
      return F["max"](apply_uf("absolute", (a,)), axis)
    raise Unsupported("norm order")
  return F["sqrt"](f_sum(apply_uf("multiply", (a, a)), axis))


L["norm"] = _norm
L["multi_dot"] = lambda xs: functools.reduce(dot, xs)


def _matrix_power(a, n):
  r = F["identity"](len(a))
  for _ in range(abs(n)):
    r = dot(r, a)
  return inv(r) if n < 0 else r


L["matrix_power"] = _matrix_power


def _cholesky(a):
  a = _sq(a)
  n = len(a)
  if n == 1:
    if bool(V.le(a[0, 0], 0)):
      raise np.linalg.LinAlgError("Matrix is not positive definite")
    return array([[V.sx_sqrt(a[0, 0])]])
  if all(bool(V.eq(a[i, j], 0)) for i in range(n) for j in range(n) if i != j):
    return f_diag(array([V.sx_sqrt(a[i, i]) for i in range(n)]))
  raise Unsupported("cholesky")


L["cholesky"] = _cholesky

# ---------------------------------------------------------------------------
_BY_FUNC = {}


def dispatch_function(func, args, kwargs):
  name = func.__name__
  mod = getattr(func, "__module__", "") or ""
  if "linalg" in mod:
    if name in L:
      return L[name](*args, **kwargs)
    raise Unsupported(f"numpy.linalg.{name}")
  if name in F:
    return F[name](*args, **kwargs)
  return passthrough(func, args, kwargs)


_PASS = {
    "reshape", "transpose", "ravel", "squeeze", "expand_dims", "swapaxes",
    "moveaxis", "rollaxis", "flip", "fliplr", "flipud", "roll", "split",
    "array_split", "hsplit", "vsplit", "rot90", "diagonal", "tril", "triu",
    "may_share_memory", "shares_memory", "result_type", "iterable", "kron",
    "require", "copyto", "put", "block", "atleast_3d", "resize", "trim_zeros",
    "permute_dims", "ix_", "unravel_index", "ravel_multi_index", "tri",
    "triu_indices", "tril_indices", "diag_indices", "indices", "ndindex",
    "ndenumerate", "printoptions", "set_printoptions", "seterr", "errstate",
    "geterr", "issubdtype", "can_cast", "promote_types", "dtype", "finfo",
    "iinfo", "array2string", "array_repr", "array_str", "shape",
    "broadcast_shapes", "unstack",
}


def _deobj(x):
  if isinstance(x, SymArr):
    return x.view(np.ndarray)
  if isinstance(x, (list, tuple)) and any(
      isinstance(e, (np.ndarray, SymNum, SymBool, list, tuple)) for e in x):
    return type(x)(_deobj(e) for e in x)
  if isinstance(x, SymNum) and x.const() and x.isint:
    return int(x.v)
  return x


def _reobj(x):
  if isinstance(x, np.ndarray):
    return wrap(x) if x.dtype != object else x.view(SymArr)
  if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
    return type(x)(_reobj(e) for e in x)
  return x


def passthrough(func, args, kwargs):
  """Structure-only functions run on the object arrays themselves."""
  if func.__name__ not in _PASS:
    raise Unsupported(f"numpy.{func.__name__} on symbolic values")
  # A number or a list stands for an array in front of these.
  def front(a):
    if isinstance(a, (SymNum, SymBool)):
      return func.__name__ in ("ravel", "reshape", "expand_dims", "transpose")
    return isinstance(a, list) and not _has_str(a)
  args = [array(a) if i == 0 and front(a) else a for i, a in enumerate(args)]
  if func.__name__ == "squeeze" and args and isinstance(args[0],
                                                       (SymNum, SymBool)):
    return args[0]
  r = func(*[_deobj(a) for a in args],
           **{k: _deobj(v) for k, v in kwargs.items()})
  return _reobj(r)
