"""Symbolic scalars: SymBool, SymNum (real or integer valued).

SymNum stands for a *finite* number (exact real/integer arithmetic) with an
optional +infinity flag.  NaN and infinities that a path knows about are plain
Python floats.  Rounding is outside the domain.
"""
import builtins
import fractions
import math
import operator

import numpy as np
import z3

from symx import core
from symx import ratfun
from symx.core import Unsupported

Fraction = fractions.Fraction
INF = float("inf")
NAN = float("nan")


def frac_of_float(x):
  """Decimal reading of a float: 0.1 means 1/10."""
  return Fraction(repr(float(x)))


def z3frac(fr):
  return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 \
      else z3.RealVal(fr.numerator)


def is_sym(x):
  return isinstance(x, (SymNum, SymBool))


_NUMTYPES = (int, float, Fraction, np.integer, np.floating, np.bool_)


def is_plain(x):
  return isinstance(x, _NUMTYPES)


def isnan_plain(x):
  return isinstance(x, (float, np.floating)) and math.isnan(x)


def isinf_plain(x):
  return isinstance(x, (float, np.floating)) and math.isinf(x)


# ---------------------------------------------------------------------------
class SymBool:
  """A symbolic boolean."""
  __slots__ = ("e",)
  __array_priority__ = 1000

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return core.ctx().branch(self.e)

  def __and__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    return mkbool(z3.And(self.e, bexpr(o)))

  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    return mkbool(z3.Or(self.e, bexpr(o)))

  __ror__ = __or__

  def __xor__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    return mkbool(z3.Xor(self.e, bexpr(o)))

  __rxor__ = __xor__

  def __invert__(self):
    return mkbool(z3.Not(self.e))

  def logical_not(self):
    return mkbool(z3.Not(self.e))

  def num(self):
    return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)

  def __eq__(self, o):
    if isinstance(o, (bool, np.bool_, SymBool)):
      return mkbool(self.e == bexpr(o))
    if isinstance(o, np.ndarray):
      return NotImplemented
    return self.num() == o

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else lnot(r)

  def __hash__(self):
    return hash(bool(self))

  def __index__(self):
    return int(bool(self))

  def __int__(self):
    return int(bool(self))

  def __float__(self):
    return float(bool(self))

  def __repr__(self):
    return f"SymBool({self.e})"

  def tobytes(self):
    return SymBytes([self])

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    from symx import nparr
    return nparr.dispatch_ufunc(ufunc, method, inputs, kw)


def _boolarith(name):
  def f(self, o):
    return getattr(self.num(), name)(o)
  return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow lt le gt ge "
           "neg abs mod rmod floordiv rfloordiv").split():
  if _n in ("neg", "abs"):
    setattr(SymBool, f"__{_n}__",
            (lambda n: lambda self: getattr(self.num(), n)())(f"__{_n}__"))
  else:
    setattr(SymBool, f"__{_n}__", _boolarith(f"__{_n}__"))


def bexpr(x):
  if isinstance(x, SymBool):
    return x.e
  if isinstance(x, SymNum):
    return bexpr(x != 0)
  if isinstance(x, z3.BoolRef):
    return x
  return z3.BoolVal(bool(x))


def mkbool(e):
  e = z3.simplify(e)
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  return SymBool(e)


def lnot(x):
  if isinstance(x, SymBool):
    return mkbool(z3.Not(x.e))
  if isinstance(x, SymNum):
    return lnot(x != 0)
  return not x


def land(*xs):
  es = []
  for x in xs:
    if isinstance(x, (SymBool, SymNum)):
      es.append(bexpr(x))
    elif not x:
      return False
  return mkbool(z3.And(es)) if es else True


def lor(*xs):
  es = []
  for x in xs:
    if isinstance(x, (SymBool, SymNum)):
      es.append(bexpr(x))
    elif x:
      return True
  return mkbool(z3.Or(es)) if es else False


# ---------------------------------------------------------------------------
class SymNum:
  """A symbolic number.

  v: Fraction (constant) or z3 arithmetic expression.
  isint: whether the numpy dtype it stands for is an integer one.
  pinf: None, or a z3 Bool that is true when the value is +infinity.
  """
  __slots__ = ("v", "isint", "pinf")
  __array_priority__ = 1000

  def __init__(self, v, isint=False, pinf=None):
    if isinstance(v, int):
      v = Fraction(v)
    self.v = v
    self.isint = isint
    self.pinf = pinf

  # -- helpers --
  def const(self):
    return isinstance(self.v, Fraction)

  def z(self):
    """As a z3 Real expression."""
    if isinstance(self.v, Fraction):
      return z3frac(self.v)
    if self.v.is_int():
      return z3.ToReal(self.v)
    return self.v

  def zi(self):
    """As a z3 Int expression."""
    if isinstance(self.v, Fraction):
      if self.v.denominator != 1:
        raise Unsupported("integer view of a fraction")
      return z3.IntVal(self.v.numerator)
    if self.v.is_int():
      return self.v
    return z3.ToInt(self.v)

  def finite(self):
    """Resolves the infinity flag by branching."""
    if self.pinf is None:
      return self
    if core.ctx().branch(self.pinf):
      return INF
    return SymNum(self.v, self.isint)

  @property
  def real(self):
    return self

  @property
  def T(self):
    return self

  imag = 0

  def conjugate(self):
    return self

  def copy(self):
    return self

  def item(self):
    return self

  def tolist(self):
    return self

  def astype(self, t, *_, **__):
    return astype(self, t)

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def __reduce__(self):
    raise Unsupported("pickling a symbolic value")

  def __repr__(self):
    if self.const() and self.pinf is None:
      return str(self.v) if self.v.denominator == 1 else str(float(self.v))
    return f"SymNum({self.v})"

  __str__ = __repr__

  def __format__(self, spec):
    if self.const() and self.pinf is None:
      return format(int(self.v) if self.isint else float(self.v), spec)
    return "<sym>"

  def concretize(self, limit=64):
    """Forks over the possible integer values."""
    if self.pinf is not None:
      f = self.finite()
      if f is INF:
        raise OverflowError("cannot convert float infinity to integer")
      return f.concretize(limit)
    if self.const():
      if self.v.denominator != 1:
        raise Unsupported("concretizing a non-integer")
      return int(self.v)
    for k in candidates(limit):
      if core.ctx().branch(self.zi() == k):
        return k
    raise core.Inconclusive("too many values to concretize")

  def __index__(self):
    if not self.isint:
      raise TypeError("only integer scalar arrays can be converted to an index")
    return self.concretize()

  def __int__(self):
    if self.isint:
      return self.concretize()
    return sx_trunc(self).concretize()

  def __float__(self):
    if self.const() and self.pinf is None:
      return float(self.v)
    raise Unsupported("float() of a symbolic number")

  def __hash__(self):
    if not self.isint:
      return 1009  # equality decides; see SymBytes
    if self.const():
      return hash(self.v)
    return hash(self.concretize())

  def __bool__(self):
    return bool(self != 0)

  def __trunc__(self):
    return sx_trunc(self)

  def __floor__(self):
    return sx_floor(self)

  def __ceil__(self):
    return -sx_floor(-self)

  def __round__(self, n=None):
    if n is None or n == 0:
      lo = sx_floor(self)
      gap = sub(self, lo)
      even = eq(mod(lo, SymNum(Fraction(2), True)), 0)
      half = eq(gap, Fraction(1, 2))
      up = lor(lt(Fraction(1, 2), gap), land(half, lnot(even)))
      return ite(up, add(lo, 1), lo)
    raise Unsupported("round to digits")

  def tobytes(self):
    return SymBytes([self])

  @property
  def dtype(self):
    return np.dtype(np.int64 if self.isint else np.float64)

  def is_integer(self):
    if self.isint:
      return True
    raise Unsupported("is_integer")

  # -- arithmetic --
  def __add__(self, o):
    return add(self, o)

  def __radd__(self, o):
    return add(o, self)

  def __sub__(self, o):
    return sub(self, o)

  def __rsub__(self, o):
    return sub(o, self)

  def __mul__(self, o):
    return mul(self, o)

  def __rmul__(self, o):
    return mul(o, self)

  def __truediv__(self, o):
    return div(self, o)

  def __rtruediv__(self, o):
    return div(o, self)

  def __floordiv__(self, o):
    return floordiv(self, o)

  def __rfloordiv__(self, o):
    return floordiv(o, self)

  def __mod__(self, o):
    return mod(self, o)

  def __rmod__(self, o):
    return mod(o, self)

  def __neg__(self):
    return neg(self)

  def __pos__(self):
    return self

  def __abs__(self):
    return absolute(self)

  def __pow__(self, o):
    return power(self, o)

  def __rpow__(self, o):
    return power(o, self)

  # -- comparisons --
  def __lt__(self, o):
    return lt(self, o)

  def __gt__(self, o):
    return lt(o, self)

  def __le__(self, o):
    return le(self, o)

  def __ge__(self, o):
    return le(o, self)

  def __eq__(self, o):
    return eq(self, o)

  def __ne__(self, o):
    r = eq(self, o)
    return r if r is NotImplemented else lnot(r)

  # numpy object-loop hooks
  def sqrt(self):
    return sx_sqrt(self)

  def log(self):
    return sx_log(self)

  def exp(self):
    return sx_exp(self)

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    from symx import nparr
    return nparr.dispatch_ufunc(ufunc, method, inputs, kw)

  def __array_function__(self, func, types, args, kwargs):
    from symx import nparr
    return nparr.dispatch_function(func, args, kwargs)

  @property
  def ndim(self):
    return 0

  @property
  def shape(self):
    return ()

  @property
  def size(self):
    return 1


def candidates(limit):
  yield 0
  for k in range(1, limit):
    yield k
    yield -k


class SymBytes:
  """The bytes of numeric cells: equal when kinds and values are.

  Hash is constant per length, so dictionaries settle keys by equality, which
  forks.  int64 0 and float64 0.0 share their bytes; other mixed pairs do not
  (negative zero is outside the domain).
  """

  def __init__(self, cells):
    self.cells = list(cells)

  @staticmethod
  def _kind(c):
    if isinstance(c, (SymBool, bool, np.bool_)):
      return "b"
    if isinstance(c, SymNum):
      return "i" if c.isint else "f"
    return "i" if isinstance(c, (int, np.integer)) else "f"

  def _size(self):
    return sum(1 if self._kind(c) == "b" else 8 for c in self.cells)

  def __len__(self):
    return self._size()

  def __hash__(self):
    return hash(("symbytes", self._size()))

  def __eq__(self, o):
    if self is o:
      return True
    if not isinstance(o, SymBytes) or len(self.cells) != len(o.cells):
      return False
    conds = []
    for a, b in zip(self.cells, o.cells):
      ka, kb = self._kind(a), self._kind(b)
      if ka != kb:
        if "b" in (ka, kb):
          raise Unsupported("comparing bytes of booleans and numbers")
        conds += [eq(a, 0), eq(b, 0)]
      elif isinstance(a, float) or isinstance(b, float):
        if repr(a) != repr(b):
          return False
      else:
        conds.append(eq(a, b))
    return bool(land(*conds)) if conds else True

  def __ne__(self, o):
    return not self == o

  def __add__(self, o):
    return SymBytes(self.cells + o.cells)

  def __repr__(self):
    return f"SymBytes({self.cells})"


def lift(x):
  """Plain number -> SymNum (finite) or float inf/nan; None when impossible."""
  if isinstance(x, SymNum):
    return x
  if isinstance(x, SymBool):
    return x.num()
  if isinstance(x, (bool, np.bool_)):
    return SymNum(Fraction(int(x)), True)
  if isinstance(x, (int, np.integer)):
    return SymNum(Fraction(int(x)), True)
  if isinstance(x, Fraction):
    return SymNum(x, False)
  if isinstance(x, (float, np.floating)):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
      return x
    return SymNum(frac_of_float(x), False)
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return lift(x.item())
  return None


def mknum(e, isint=False):
  e = z3.simplify(e)
  if z3.is_rational_value(e):
    return SymNum(Fraction(e.numerator_as_long(), e.denominator_as_long()),
                  isint)
  if z3.is_int_value(e):
    return SymNum(Fraction(e.as_long()), isint)
  return SymNum(e, isint)


def _fin(x):
  return x.finite() if isinstance(x, SymNum) else x


def _nonfinite(x):
  return isinstance(x, float)


def _binop(a, b, opf, opz, floatop):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  if _nonfinite(la) or _nonfinite(lb):
    return floatop(la, lb)
  if la.const() and lb.const():
    return SymNum(opf(la.v, lb.v), la.isint and lb.isint)
  if la.isint and lb.isint:
    return mknum(opz(la.zi(), lb.zi()), True)
  return mknum(opz(la.z(), lb.z()), False)


def _or_inf(*flags):
  fl = [f for f in flags if f is not None]
  if not fl:
    return None
  return fl[0] if len(fl) == 1 else z3.Or(fl)


def add(a, b):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  if _nonfinite(la) or _nonfinite(lb):
    la, lb = _fin(la), _fin(lb)
    if _nonfinite(la) and _nonfinite(lb):
      return la + lb
    return la if _nonfinite(la) else lb
  p = _or_inf(la.pinf, lb.pinf)
  if p is not None:
    return SymNum((SymNum(la.v, la.isint) + SymNum(lb.v, lb.isint)).v, False, p)
  if la.const() and la.v == 0:
    return lb if not lb.isint or la.isint else SymNum(lb.z(), False)
  if lb.const() and lb.v == 0:
    return la if not la.isint or lb.isint else SymNum(la.z(), False)
  return _binop(la, lb, operator.add, operator.add, None)


def sub(a, b):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  if isinstance(lb, SymNum) and lb.pinf is not None:
    lb = lb.finite()
  if _nonfinite(la) or _nonfinite(lb):
    la, lb = _fin(la), _fin(lb)
    if _nonfinite(la) and _nonfinite(lb):
      return la - lb
    return la if _nonfinite(la) else -lb
  if la.pinf is not None:
    return SymNum((SymNum(la.v, la.isint) - lb).v, False, la.pinf)
  if lb.const() and lb.v == 0:
    return la if not la.isint or lb.isint else SymNum(la.z(), False)
  return _binop(la, lb, operator.sub, operator.sub, None)


def neg(a):
  a = _fin(a)
  if _nonfinite(a):
    return -a
  if a.const():
    return SymNum(-a.v, a.isint)
  return SymNum(-(a.zi() if a.isint else a.z()), a.isint)


def mul(a, b):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  for x, y in ((la, lb), (lb, la)):
    if isinstance(x, SymNum) and x.pinf is not None:
      if isinstance(y, SymNum) and y.pinf is None and bool(y > 0):
        return SymNum((SymNum(x.v, x.isint) * y).v, False, x.pinf)
      return mul(_fin(la), _fin(lb))
  if _nonfinite(la) or _nonfinite(lb):
    if _nonfinite(la) and _nonfinite(lb):
      return la * lb
    n, s = (la, lb) if _nonfinite(la) else (lb, la)
    if math.isnan(n):
      return n
    if bool(s > 0):
      return n
    if bool(s == 0):
      return NAN
    return -n
  for x, y in ((la, lb), (lb, la)):
    if x.const():
      if x.v == 1:
        return y if not y.isint or x.isint else SymNum(y.z(), False)
      if x.v == 0:
        return SymNum(Fraction(0), la.isint and lb.isint)
  return _binop(la, lb, operator.mul, operator.mul, None)


def div(a, b):
  """numpy true division (by zero: inf or nan)."""
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  la, lb = _fin(la), _fin(lb)
  if _nonfinite(la) and _nonfinite(lb):
    return NAN
  if _nonfinite(la):
    if math.isnan(la):
      return la
    return la if bool(lb >= 0) else -la
  if _nonfinite(lb):
    return lb if math.isnan(lb) else SymNum(Fraction(0))
  if bool(lb == 0):
    if bool(la == 0):
      return NAN
    return INF if bool(la > 0) else -INF
  if la.const() and lb.const():
    return SymNum(la.v / lb.v, False)
  if lb.const():
    return mknum(la.z() * z3frac(1 / lb.v), False)
  if la.const() and la.v == 0:
    return SymNum(Fraction(0))
  return mknum(la.z() / lb.z(), False)


def pydiv(a, b):
  """The `/` operator of the analysed source.

  Exact on plain numbers whose quotient is not a dyadic float.
  """
  if type(a) in (int, float, bool) and type(b) in (int, float, bool):
    if b == 0 or isnan_plain(a) or isnan_plain(b) or isinf_plain(
        a) or isinf_plain(b):
      return a / b
    q = frac_of_float(a) / frac_of_float(b)
    r = a / b
    if Fraction(r) == q:
      return r
    return SymNum(q, False)
  if isinstance(a, (np.integer, np.floating)) and isinstance(
      b, (int, float, np.integer, np.floating)) or isinstance(
          b, (np.integer, np.floating)) and isinstance(a, (int, float)):
    if b != 0 and math.isfinite(a) and math.isfinite(b):
      q = frac_of_float(float(a)) / frac_of_float(float(b))
      r = a / b
      if Fraction(float(r)) == q:
        return r
      return SymNum(q, False)
  return a / b


def floordiv(a, b):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  la, lb = _fin(la), _fin(lb)
  if _nonfinite(la) or _nonfinite(lb):
    raise Unsupported("floor division with non-finite values")
  if la.isint and lb.isint:
    if la.const() and lb.const():
      return SymNum(Fraction(la.v // lb.v), True)
    if not (lb.const() and lb.v > 0):
      raise Unsupported("floor division by a symbolic integer")
    return mknum(la.zi() / lb.zi(), True)
  return astype(sx_floor(div(la, lb)), float)


def mod(a, b):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  la, lb = _fin(la), _fin(lb)
  if _nonfinite(la) or _nonfinite(lb):
    raise Unsupported("modulo with non-finite values")
  if la.const() and lb.const():
    return SymNum(Fraction(la.v % lb.v), la.isint and lb.isint)
  if la.isint and lb.isint and lb.const() and lb.v > 0:
    return mknum(la.zi() % lb.zi(), True)
  return la - lb * floordiv(la, lb)


def power(a, b):
  lb = lift(b)
  if isinstance(lb, SymNum) and lb.const():
    if lb.v.denominator == 1 and abs(lb.v) <= 8:
      n = int(lb.v)
      la = lift(a)
      if la is None:
        return NotImplemented
      if n < 0:
        return div(1, power(la, -n))
      r = SymNum(Fraction(1), la.isint and lb.isint) if isinstance(
          la, SymNum) else 1
      for _ in range(n):
        r = mul(r, la)
      return r
    if lb.v == Fraction(1, 2):
      return sx_sqrt(a)
    if lb.v == Fraction(-1, 2):
      return div(1, sx_sqrt(a))
  la = lift(a)
  if isinstance(lb, SymNum) and lb.isint and not lb.const():
    return power(la, lb.concretize())
  raise Unsupported("general power")


def absolute(a):
  a = _fin(lift(a))
  if _nonfinite(a):
    return abs(a)
  if a.const():
    return SymNum(abs(a.v), a.isint)
  e = a.zi() if a.isint else a.z()
  return mknum(z3.If(e >= 0, e, -e), a.isint)


def _cmp(a, b, opf, opz, strict):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return NotImplemented
  if _nonfinite(la) or _nonfinite(lb):
    # compare with inf / nan
    if _nonfinite(la) and _nonfinite(lb):
      return opf(la, lb)
    if _nonfinite(la):
      if math.isnan(la):
        return False
      if la > 0 and lb.pinf is not None:  # inf < b ; inf <= b
        return False if strict else mkbool(lb.pinf)
      return opf(la, 0.0)
    if math.isnan(lb):
      return False
    if lb > 0 and la.pinf is not None:
      return mkbool(z3.Not(la.pinf)) if strict else True
    return opf(0.0, lb)
  if la.const() and lb.const() and la.pinf is None and lb.pinf is None:
    return opf(la.v, lb.v)
  if la.isint and lb.isint:
    e = opz(la.zi(), lb.zi())
  else:
    e = opz(la.z(), lb.z())
  if la.pinf is not None or lb.pinf is not None:
    pa = la.pinf if la.pinf is not None else z3.BoolVal(False)
    pb = lb.pinf if lb.pinf is not None else z3.BoolVal(False)
    if strict:
      e = z3.And(z3.Not(pa), z3.Or(pb, e))
    else:
      e = z3.Or(pb, z3.And(z3.Not(pa), e))
  return mkbool(e)


def lt(a, b):
  return _cmp(a, b, operator.lt, operator.lt, True)


def le(a, b):
  return _cmp(a, b, operator.le, operator.le, False)


def eq(a, b):
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
      return NotImplemented
    return False
  if _nonfinite(la) or _nonfinite(lb):
    if _nonfinite(la) and _nonfinite(lb):
      return la == lb
    n, s = (la, lb) if _nonfinite(la) else (lb, la)
    if math.isinf(n) and n > 0 and s.pinf is not None:
      return mkbool(s.pinf)
    return False
  if la.const() and lb.const() and la.pinf is None and lb.pinf is None:
    return la.v == lb.v
  if la.isint and lb.isint:
    e = la.zi() == lb.zi()
  else:
    e = la.z() == lb.z()
  if la.pinf is not None or lb.pinf is not None:
    pa = la.pinf if la.pinf is not None else z3.BoolVal(False)
    pb = lb.pinf if lb.pinf is not None else z3.BoolVal(False)
    e = z3.And(pa == pb, z3.Or(pa, e))
  return mkbool(e)


def ite(c, a, b):
  """Merged conditional on numbers and booleans; branches on anything else."""
  if not isinstance(c, SymBool):
    return a if c else b
  if a is b:
    return a
  if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(
      b, (bool, np.bool_, SymBool)):
    return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
  la, lb = lift(a), lift(b)
  if la is None or lb is None:
    return a if c else b
  if (_nonfinite(la) and (math.isnan(la) or la < 0)) or (
      _nonfinite(lb) and (math.isnan(lb) or lb < 0)):
    return a if c else b
  if _nonfinite(la) or _nonfinite(lb) or la.pinf is not None or \
      lb.pinf is not None:
    if _nonfinite(la) and _nonfinite(lb):
      return INF

    def parts(x):
      if _nonfinite(x):
        return z3.RealVal(0), z3.BoolVal(True)
      return x.z(), x.pinf if x.pinf is not None else z3.BoolVal(False)

    va, pa = parts(la)
    vb, pb = parts(lb)
    if _nonfinite(la):
      va = vb
    if _nonfinite(lb):
      vb = va
    return SymNum(z3.simplify(z3.If(c.e, va, vb)), False,
                  z3.simplify(z3.If(c.e, pa, pb)))
  if la.isint and lb.isint:
    return mknum(z3.If(c.e, la.zi(), lb.zi()), True)
  return mknum(z3.If(c.e, la.z(), lb.z()), False)


def astype(x, t):
  if t in (float, np.float64, np.float32, "float", "float64"):
    x = lift(x)
    if _nonfinite(x):
      return x
    return SymNum(x.v if x.const() else x.z(), False, x.pinf)
  if t in (int, np.int64, np.int32, "int", "int64"):
    x = lift(x)
    if isinstance(x, SymNum) and x.isint:
      return x
    return sx_trunc(x)
  if t in (bool, np.bool_, "bool"):
    return x if isinstance(x, SymBool) else x != 0
  if t in (object, None, "object", "O"):
    return x
  raise Unsupported(f"astype {t}")


# -- rounding ----------------------------------------------------------------
def sx_floor(x):
  x = lift(x)
  x = _fin(x)
  if _nonfinite(x):
    return x
  if x.isint:
    return x
  if x.const():
    return SymNum(Fraction(math.floor(x.v)), True)
  return mknum(z3.ToInt(x.z()), True)


def sx_ceil(x):
  x = lift(x)
  x = _fin(x)
  if _nonfinite(x):
    return x
  return neg(sx_floor(neg(x)))


def sx_trunc(x):
  x = _fin(lift(x))
  if _nonfinite(x):
    return x
  if x.isint:
    return x
  if bool(x >= 0):
    return sx_floor(x)
  return sx_ceil(x)


# -- transcendental functions --------------------------------------------------
def _fresh(kind, arg):
  """Memoised fresh real for kind(arg) plus the list of earlier ones."""
  c = core.ctx()
  table = c.memo.setdefault(("fn", kind), [])
  for a, r in table:
    if ratfun.same(a, arg):
      return r, table, False
  r = z3.Real(f"{kind}!{len(table)}")
  return r, table, True


def _monotone(kind, arg, r, table, axioms):
  c = core.ctx()
  for ax in axioms:
    c.fact(ax)
  for a, q in table:
    c.fact(z3.And((a < arg) == (q < r), (a == arg) == (q == r)))
  table.append((arg, r))


def _const_bounds(f, v):
  y = f(float(v))
  lo = Fraction(y) - Fraction(1, 10**9) * max(1, abs(Fraction(y)))
  hi = Fraction(y) + Fraction(1, 10**9) * max(1, abs(Fraction(y)))
  return lo, hi


def sx_sqrt(x):
  """Non-negative square root; nan below zero."""
  x = _fin(lift(x))
  if _nonfinite(x):
    return math.sqrt(x) if not (x < 0) else NAN
  if x.const():
    if x.v < 0:
      return NAN
    n, d = x.v.numerator, x.v.denominator
    sn, sd = math.isqrt(n), math.isqrt(d)
    if sn * sn == n and sd * sd == d:
      return SymNum(Fraction(sn, sd))
  elif bool(x < 0):
    return NAN
  arg = z3.simplify(x.z())
  r, table, new = _fresh("sqrt", arg)
  if new:
    c = core.ctx()
    c.fact(z3.And(r >= 0, r * r == arg))
    for a, q in table:
      c.fact(z3.And((a < arg) == (q < r), (a == arg) == (q == r)))
    table.append((arg, r))
  return SymNum(r)


def sx_log(x):
  x = _fin(lift(x))
  if _nonfinite(x):
    return x if not (x < 0) else NAN
  if x.const():
    if x.v < 0:
      return NAN
    if x.v == 0:
      return -INF
    if x.v == 1:
      return SymNum(Fraction(0))
  else:
    if bool(x < 0):
      return NAN
    if bool(x == 0):
      return -INF
  arg = z3.simplify(x.z())
  for a, e in core.ctx().memo.get(("fn", "exp"), ()):
    if ratfun.same(arg, e):  # the log of an exp
      return SymNum(a)
    if ratfun.same(arg * e, z3.RealVal(1)):
      return SymNum(z3.simplify(-a))
  r, table, new = _fresh("log", arg)
  if new:
    ax = [(arg > 1) == (r > 0), (arg < 1) == (r < 0), r <= arg - 1,
          r * arg >= arg - 1]
    if x.const():
      lo, hi = _const_bounds(math.log, x.v)
      ax += [r >= z3frac(lo), r <= z3frac(hi)]
    _monotone("log", arg, r, table, ax)
  return SymNum(r)


def sx_exp(x):
  x = _fin(lift(x))
  if _nonfinite(x):
    return math.exp(x)
  if x.const() and x.v == 0:
    return SymNum(Fraction(1))
  if x.const() and core.ctx().memo.get("numeric"):
    return SymNum(Fraction(math.exp(x.v)))
  arg = z3.simplify(x.z())
  r, table, new = _fresh("exp", arg)
  if new:
    ax = [r > 0, (arg > 0) == (r > 1), (arg < 0) == (r < 1), r >= 1 + arg]
    if x.const():
      lo, hi = _const_bounds(math.exp, x.v)
      ax += [r >= z3frac(lo), r <= z3frac(hi)]
    # exp(-a) exp(a) = 1 for syntactically opposite arguments
    for a, q in table:
      if z3.is_rational_value(z3.simplify(a + arg)) and z3.simplify(
          a + arg).as_fraction() == 0:
        ax.append(q * r == 1)
    _monotone("exp", arg, r, table, ax)
  return SymNum(r)


def sx_isnan(x):
  if isinstance(x, (SymNum, SymBool)):
    return False
  if isinstance(x, (bool, int, Fraction, np.integer, np.bool_)):
    return False
  return math.isnan(x)


def sx_isinf(x):
  if isinstance(x, SymNum):
    return mkbool(x.pinf) if x.pinf is not None else False
  if isinstance(x, (SymBool, bool, int, Fraction, np.integer, np.bool_)):
    return False
  return math.isinf(x)


def sx_isfinite(x):
  return land(lnot(sx_isnan(x)), lnot(sx_isinf(x)))


def np_maximum(a, b):
  if isnan_plain(a):
    return a
  if isnan_plain(b):
    return b
  return ite(lt(a, b) if is_sym(a) or is_sym(b) else a < b, b, a)


def np_minimum(a, b):
  if isnan_plain(a):
    return a
  if isnan_plain(b):
    return b
  return ite(lt(b, a) if is_sym(a) or is_sym(b) else b < a, b, a)


# -- builtins with merging ----------------------------------------------------
def sx_max(*args, **kw):
  return _extreme(builtins.max, lambda x, r: x > r, args, kw)


def sx_min(*args, **kw):
  return _extreme(builtins.min, lambda x, r: x < r, args, kw)


def _extreme(real, better, args, kw):
  if kw.get("key") is not None:
    return real(*args, **kw)
  xs = list(args[0]) if len(args) == 1 else list(args)
  if not xs:
    return real(xs, **kw)
  if not any(is_sym(x) for x in xs):
    return real(xs)
  r = xs[0]
  for x in xs[1:]:
    r = ite(better(x, r), x, r)
  return r


def sx_any(it):
  acc = False
  it = iter(it)
  while True:
    try:
      x = next(it)
    except StopIteration:
      return acc
    except Exception:  # evaluating past an undecided element: decide it
      if isinstance(acc, SymBool) and bool(acc):
        return True
      raise
    if is_sym(x):
      acc = lor(acc, x)
      if acc is True:
        return True
    elif x:
      return True


def sx_all(it):
  acc = True
  it = iter(it)
  while True:
    try:
      x = next(it)
    except StopIteration:
      return acc
    except Exception:
      if isinstance(acc, SymBool) and not bool(acc):
        return False
      raise
    if is_sym(x):
      acc = land(acc, x)
      if acc is False:
        return False
    elif not x:
      return False


def sx_sum(it, start=0):
  for x in it:
    start = start + x
  return start


class _FloatMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, float) or isinstance(x, SymNum) and not x.isint

  def __subclasscheck__(cls, c):
    return issubclass(c, float)

  def __eq__(cls, o):
    return o is float or o is cls

  def __hash__(cls):
    return hash(float)


class SxFloat(metaclass=_FloatMeta):
  """Stand-in for the builtin `float` in analysed modules."""

  def __new__(cls, x=0.0):
    if isinstance(x, (SymNum, SymBool)):
      return astype(x, float)
    if isinstance(x, np.ndarray) and x.size == 1:
      return cls(x.reshape(-1)[0])
    return float(x)


class _IntMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, int) or isinstance(x, SymNum) and x.isint

  def __subclasscheck__(cls, c):
    return issubclass(c, int)

  def __eq__(cls, o):
    return o is int or o is cls

  def __hash__(cls):
    return hash(int)


class SxInt(metaclass=_IntMeta):

  def __new__(cls, x=0, *a):
    if isinstance(x, (SymNum, SymBool)):
      r = astype(x, int)
      if isinstance(r, float):
        return int(r)  # raises as Python does
      return int(r.v) if r.const() and r.pinf is None else r
    if isinstance(x, np.ndarray) and x.size == 1:
      return cls(x.reshape(-1)[0])
    return int(x, *a)


class _BoolMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, bool)

  def __eq__(cls, o):
    return o is bool or o is cls

  def __hash__(cls):
    return hash(bool)


class SxBool(metaclass=_BoolMeta):

  def __new__(cls, x=False):
    if isinstance(x, SymBool):
      return x
    if isinstance(x, SymNum):
      return x != 0
    return bool(x)


def real_type(t):
  """Maps the stand-in types back to the builtins (for dtype arguments)."""
  if isinstance(t, type):
    if t is SxFloat:
      return float
    if t is SxInt:
      return int
    if t is SxBool:
      return bool
  return t
