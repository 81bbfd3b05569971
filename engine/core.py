"""Path-wise verification-condition generator over the real feedx source.

The real functions are executed by CPython; their inputs are logic terms.
`SV` wraps one z3 term.  Asking a symbolic boolean for its truth value forks the
path.  Every path is re-executed from the start with a decision prefix, so the
whole path tree of a function is covered (no bound).  Obligations are handed to
`prover`.
"""
from __future__ import annotations
import fractions
import math
import z3

z3.set_param('smt.random_seed', 0)
z3.set_param('sat.random_seed', 0)


class Unsupported(BaseException):
  """A construct the engine has no contract for (never swallowed by code)."""


class PathEnd(BaseException):
  """This path is infeasible / outside the precondition."""


class SymRaise(Exception):
  pass


# --------------------------------------------------------------------------
R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()

_SQRT = z3.Function('sqrt', R, R)
_LOG = z3.Function('log', R, R)
TCDF = z3.Function('t_cdf', R, R, R)     # (x, df)
TPPF = z3.Function('t_ppf', R, R, R)     # (q, df)
NPPF = z3.Function('norm_ppf', R, R)

import os
VERBOSE = bool(os.environ.get('VC_VERBOSE'))
CTX: 'Ctx' = None


def ctx() -> 'Ctx':
  if CTX is None:
    raise Unsupported('symbolic operation outside a verification context')
  return CTX


def simp(t):
  return z3.simplify(t)


def is_true(t):
  return z3.is_true(t)


def is_false(t):
  return z3.is_false(t)


def realval(x):
  """Exact value of the decimal literal of a concrete number."""
  if isinstance(x, bool):
    return z3.RealVal(1 if x else 0)
  if isinstance(x, int):
    return z3.RealVal(x)
  if isinstance(x, fractions.Fraction):
    return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) \
        if x.denominator != 1 else z3.RealVal(str(x.numerator))
  x = float(x)
  f = fractions.Fraction(repr(x))
  return simp(z3.RealVal(f.numerator) / z3.RealVal(f.denominator))


# -- interned codes for concrete python objects -----------------------------
_codes: dict = {}
_code_objs: dict = {}


NAMING = True


def _is_num(t):
  return z3.is_rational_value(t) or z3.is_int_value(t)


def code_of(obj):
  key = (type(obj).__name__, obj)
  if key not in _codes:
    c = -(len(_codes) + 10)
    _codes[key] = c
    _code_objs[c] = obj
  return _codes[key]


def is_concrete_number(x):
  import numpy as np
  return isinstance(x, (int, float, bool, np.number, np.bool_)) and not isinstance(x, SV)


def conc(x):
  """numpy scalar -> python scalar."""
  import numpy as np
  if isinstance(x, np.bool_):
    return bool(x)
  if isinstance(x, np.integer):
    return int(x)
  if isinstance(x, np.floating):
    return float(x)
  return x


def is_inf(x):
  return isinstance(x, float) and math.isinf(x)


def is_nan(x):
  return isinstance(x, float) and math.isnan(x)


class SV:
  """A symbolic scalar.  kind in num,bool,obj,date,td."""
  __slots__ = ('t', 'kind', 'null')
  __array_priority__ = 1e9
  __array_ufunc__ = None

  def __init__(self, t, kind=None, null=None):
    self.t = t
    if kind is None:
      kind = 'bool' if t.sort() == B else 'num'
    self.kind = kind
    self.null = null  # z3 Bool: value is missing (None/NaN/NaT), or None

  # -- helpers
  @property
  def isint(self):
    return self.t.sort() == I

  def __repr__(self):
    return f'SV({self.t})'

  def __str__(self):
    return ctx().token(self)

  def __format__(self, spec):
    return ctx().token(self, spec)

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def copy(self):
    return self

  def __hash__(self):
    # structural; python dict/sets compare with == afterwards (forks)
    raise Unsupported('hash of a symbolic value')

  # -- truth
  def __bool__(self):
    if self.t.sort() == B:
      return ctx().fork(self.t)
    if self.kind == 'obj':
      # truthiness of a string/None: empty or None are the falsy codes
      falsy = z3.Or(self.t == code_of(''), self.t == code_of(None))
      return not ctx().fork(falsy)
    return ctx().fork(self.t != 0)

  def __index__(self):
    v = simp(self.t)
    if z3.is_int_value(v):
      return v.as_long()
    raise Unsupported('symbolic value used as a concrete index')

  def __int__(self):
    return self.__index__()

  def __float__(self):
    v = simp(self.t)
    if z3.is_rational_value(v):
      return float(v.as_fraction())
    raise Unsupported('float() of a symbolic value outside the engine')

  # -- arithmetic
  def __add__(self, o):
    return arith('+', self, o)

  def __radd__(self, o):
    return arith('+', o, self)

  def __sub__(self, o):
    return arith('-', self, o)

  def __rsub__(self, o):
    return arith('-', o, self)

  def __mul__(self, o):
    return arith('*', self, o)

  def __rmul__(self, o):
    return arith('*', o, self)

  def __truediv__(self, o):
    return arith('/', self, o)

  def __rtruediv__(self, o):
    return arith('/', o, self)

  def __floordiv__(self, o):
    return arith('//', self, o)

  def __rfloordiv__(self, o):
    return arith('//', o, self)

  def __mod__(self, o):
    return arith('%', self, o)

  def __rmod__(self, o):
    return arith('%', o, self)

  def __pow__(self, o):
    return arith('**', self, o)

  def __rpow__(self, o):
    return arith('**', o, self)

  def __neg__(self):
    return arith('*', -1, self)

  def __pos__(self):
    return self

  def __abs__(self):
    return sym_abs(self)

  def __matmul__(self, o):
    return NotImplemented

  # -- comparison
  def __lt__(self, o):
    return compare('<', self, o)

  def __le__(self, o):
    return compare('<=', self, o)

  def __gt__(self, o):
    return compare('>', self, o)

  def __ge__(self, o):
    return compare('>=', self, o)

  def __eq__(self, o):
    return compare('==', self, o)

  def __ne__(self, o):
    return compare('!=', self, o)

  # -- boolean
  def __and__(self, o):
    return boolop('&', self, o)

  def __rand__(self, o):
    return boolop('&', o, self)

  def __or__(self, o):
    return boolop('|', self, o)

  def __ror__(self, o):
    return boolop('|', o, self)

  def __xor__(self, o):
    return boolop('^', self, o)

  __rxor__ = __xor__

  def __invert__(self):
    if self.t.sort() != B:
      raise Unsupported('~ on a non boolean')
    return SV(z3.Not(self.t))

  # -- numpy scalar / datetime api
  def item(self):
    return self

  def astype(self, t):
    from . import npstub
    return npstub.cast_scalar(self, t)

  def mean(self, *a, **k):
    return self

  def flatten(self):
    raise Unsupported('flatten of scalar')

  @property
  def shape(self):
    return ()

  @property
  def ndim(self):
    return 0

  @property
  def days(self):
    if self.kind != 'td':
      raise AttributeError('days')
    return SV(self.t)

  def strftime(self, fmt):
    if self.kind == 'date' and fmt == '%Y-%m-%d':
      if CTX is not None:
        CTX.fact(DATEOF(DATESTR(self.t)) == self.t)
      return SV(DATESTR(self.t), 'obj')
    raise Unsupported('strftime')

  def __round__(self, n=None):
    raise Unsupported('round of symbolic')

  # string-like
  def __len__(self):
    raise Unsupported('len of symbolic scalar')

  def encode(self, *a):
    if self.kind == 'obj':
      return SymBytes(self)
    raise AttributeError('encode')


DATESTR = z3.Function('date_to_str', I, I)
DATEOF = z3.Function('parse_date', I, I)
STRCAT = z3.Function('str_concat', I, I, I)
TOSTR = z3.Function('to_str', I, I)


class SymBytes:

  def __init__(self, s):
    self.s = s


def is_sym(x):
  return isinstance(x, SV)


def as_t(x, sort=None):
  """z3 term of a scalar (num)."""
  if isinstance(x, SV):
    t = x.t
  elif z3.is_expr(x):
    t = x
  else:
    x = conc(x)
    if isinstance(x, bool):
      t = z3.BoolVal(x)
    elif isinstance(x, int):
      t = z3.IntVal(x)
    elif isinstance(x, float):
      if math.isinf(x) or math.isnan(x):
        raise Unsupported('inf/nan inside a term')
      t = realval(x)
    elif x is None or isinstance(x, (str, bytes, tuple)):
      t = z3.IntVal(code_of(x))
    else:
      raise Unsupported(f'cannot lift {type(x).__name__}')
  if sort == R:
    return to_real(t)
  if sort == I and t.sort() == B:
    return z3.If(t, z3.IntVal(1), z3.IntVal(0))
  if sort == B and t.sort() != B:
    return t != 0
  return t


def to_real(t):
  if t.sort() == R:
    return t
  if t.sort() == B:
    return z3.If(t, z3.RealVal(1), z3.RealVal(0))
  if z3.is_int_value(t):
    return z3.RealVal(t.as_long())
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
    c = t.children()
    return z3.If(c[0], to_real(c[1]), to_real(c[2]))
  return z3.ToReal(t)


def num_t(x):
  """z3 arithmetic term (Int or Real) of a scalar; bools become 0/1."""
  t = as_t(x)
  if t.sort() == B:
    t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
  return t


def lift(x, kind=None):
  if isinstance(x, SV):
    return x
  return SV(as_t(x), kind or ('obj' if (x is None or isinstance(x, (str, bytes, tuple))) else None))


def _join(a, b):
  ta, tb = num_t(a), num_t(b)
  if ta.sort() != tb.sort():
    ta, tb = to_real(ta), to_real(tb)
  return ta, tb


def _nul(*xs):
  ns = [x.null for x in xs if isinstance(x, SV) and x.null is not None]
  if not ns:
    return None
  return simp(z3.Or(*ns)) if len(ns) > 1 else ns[0]


def sym_sqrt_arg(t):
  if z3.is_app(t) and t.decl().eq(_SQRT):
    return t.arg(0)
  return None


def arith(op, a, b):
  from . import npstub
  import datetime as dt
  if isinstance(a, npstub.Arr) or isinstance(b, npstub.Arr) or npstub.is_pd(a) or npstub.is_pd(b):
    return NotImplemented
  a, b = conc(a), conc(b)
  ka = a.kind if isinstance(a, SV) else None
  kb = b.kind if isinstance(b, SV) else None
  if isinstance(a, dt.timedelta):
    a, ka = SV(z3.IntVal(_whole_days(a)), 'td'), 'td'
  if isinstance(b, dt.timedelta):
    b, kb = SV(z3.IntVal(_whole_days(b)), 'td'), 'td'
  if isinstance(a, dt.datetime):
    a, ka = lift_date(a), 'date'
  if isinstance(b, dt.datetime):
    b, kb = lift_date(b), 'date'
  if isinstance(a, str) or isinstance(b, str) or ka == 'obj' or kb == 'obj':
    if op == '+' and (isinstance(a, str) or ka == 'obj') and (isinstance(b, str) or kb == 'obj'):
      from .loader import detoken
      a, b = (detoken(x) if isinstance(x, str) else x for x in (a, b))
      return SV(STRCAT(as_t(a), as_t(b)), 'obj')
    raise Unsupported(f'{op} on object values')
  rk = None
  if ka in ('date', 'td') or kb in ('date', 'td'):
    if op == '-' and ka == 'date' and kb == 'date':
      rk = 'td'
    elif op in '+-' and ka == 'date' and kb == 'td':
      rk = 'date'
    elif op == '+' and ka == 'td' and kb == 'date':
      rk = 'date'
    elif op in '+-' and ka == 'td' and kb == 'td':
      rk = 'td'
    elif op == '*' and (ka == 'td') != (kb == 'td'):
      rk = 'td'
    else:
      raise Unsupported(f'{op} on {ka},{kb}')
  null = _nul(a, b)
  # infinities stay concrete
  for x, y, first in ((a, b, True), (b, a, False)):
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
      if math.isnan(x):
        return x
      if op in '+-' and len(op) == 1:
        return x if (first or op == '+') else -x
      if op == '*':
        s = lift(y)
        if s > 0:
          return x
        if s < 0:
          return -x
        return math.nan
      if op == '/':
        if first:
          s = lift(y)
          if s > 0:
            return x
          raise Unsupported('inf / non-positive')
        return SV(z3.RealVal(0))
      raise Unsupported(f'{op} with infinity')
  if op in ('+', '-', '*'):
    ta, tb = _join(a, b)
    if op == '+':
      t = ta + tb
    elif op == '-':
      t = ta - tb
    else:
      t = ta * tb
    return SV(simp(t), rk, null)
  if op == '/':
    ta, tb = to_real(num_t(a)), to_real(num_t(b))
    c = ctx()
    c.defined(tb != 0, 'division by zero')
    return SV(c.named(simp(ta / tb), 'quot'), None, null)
  if op in ('//', '%'):
    ta, tb = num_t(a), num_t(b)
    if ta.sort() == I and tb.sort() == I:
      ctx().defined(tb != 0, 'integer division by zero')
      bb = simp(tb)
      if z3.is_int_value(bb) and bb.as_long() > 0:
        return SV(simp(ta / bb if op == '//' else ta % bb), None, null)
      # python floor division for either sign
      q = z3.If(tb > 0, ta / tb, (-ta) / (-tb))
      if op == '//':
        return SV(simp(q), None, null)
      return SV(simp(ta - tb * q), None, null)
    ta, tb = to_real(ta), to_real(tb)
    ctx().defined(tb != 0, 'division by zero')
    q = z3.ToReal(z3.ToInt(ta / tb))
    return SV(simp(q if op == '//' else ta - tb * q), None, null)
  if op == '**':
    bb = b
    if isinstance(b, SV):
      v = simp(b.t)
      if z3.is_int_value(v):
        bb = v.as_long()
      elif z3.is_rational_value(v):
        bb = float(v.as_fraction())
      else:
        raise Unsupported('symbolic exponent')
    if isinstance(bb, float) and bb == int(bb):
      base = SV(to_real(num_t(a)), None, null)
      bb = int(bb)
    else:
      base = lift(a)
    if bb == 0.5:
      return sym_sqrt(base)
    if not isinstance(bb, int):
      raise Unsupported(f'power {bb}')
    if bb < 0:
      return arith('/', 1.0, arith('**', base, -bb))
    t = num_t(base)
    inner = sym_sqrt_arg(t)
    if inner is not None and bb % 2 == 0:
      t, bb = inner, bb // 2
    r = None
    for _ in range(bb):
      r = t if r is None else r * t
    if r is None:
      r = z3.IntVal(1) if t.sort() == I else z3.RealVal(1)
    return SV(simp(r), None, null)
  raise Unsupported(op)


def _whole_days(td):
  if td.seconds or td.microseconds:
    raise Unsupported('sub-day timedelta')
  return td.days


def lift_date(d):
  return SV(z3.IntVal(d.toordinal()), 'date')


_CMP = {
    '<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
    '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
    '==': lambda x, y: x == y, '!=': lambda x, y: x != y,
}


def compare(op, a, b):
  from . import npstub
  import datetime as dt
  if isinstance(a, npstub.Arr) or isinstance(b, npstub.Arr) or npstub.is_pd(a) or npstub.is_pd(b):
    return NotImplemented
  a, b = conc(a), conc(b)
  if isinstance(a, dt.datetime):
    a = lift_date(a)
  if isinstance(b, dt.datetime):
    b = lift_date(b)
  if isinstance(a, dt.timedelta):
    a = SV(z3.IntVal(_whole_days(a)), 'td')
  if isinstance(b, dt.timedelta):
    b = SV(z3.IntVal(_whole_days(b)), 'td')
  isobj = lambda x: x is None or isinstance(x, (str, bytes, tuple)) or (isinstance(x, SV) and x.kind == 'obj')
  oa, ob = isobj(a), isobj(b)
  if oa != ob:
    # an object value against a number: a symbolic object may itself be numeric
    if op in ('==', '!='):
      s, o = (a, b) if oa else (b, a)
      if isinstance(s, SV) and not isinstance(o, SV):
        t = s.t == code_of(o)
        return SV(simp(t if op == '==' else z3.Not(t)))
      return op == '!='
    raise TypeError(f"'{op}' not supported between these values")
  if oa and ob:
    if op in ('==', '!='):
      ta, tb = as_t(a), as_t(b)
      t = simp(ta == tb)
      return SV(t if op == '==' else simp(z3.Not(t)))
    if isinstance(a, SV) and isinstance(b, SV):
      t = _CMP[op](OBJKEY(a.t), OBJKEY(b.t))
      return SV(t)
    raise Unsupported('ordering of object values')
  for x, y, flip in ((a, b, False), (b, a, True)):
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
      if isinstance(y, SV):
        y0 = 0.0
        return bool(_CMP[op](x, y0)) if not flip else bool(_CMP[op](y0, x))
  if isinstance(a, SV) and isinstance(b, SV) and a.t.sort() == B and b.t.sort() == B and op in ('==', '!='):
    t = a.t == b.t
    return SV(simp(t if op == '==' else z3.Not(t)))
  if not isinstance(a, SV) and not isinstance(b, SV):
    return _CMP[op](a, b)
  ta, tb = _join(a, b)
  t = _CMP[op](ta, tb)
  n = _nul(a, b)
  if n is not None:
    # numpy/pandas: comparisons with a missing value are False (!= is True)
    t = z3.Or(n, t) if op == '!=' else z3.And(z3.Not(n), t)
  return SV(simp(t))


OBJKEY = z3.Function('str_order_key', I, R)


def boolop(op, a, b):
  from . import npstub
  if isinstance(a, npstub.Arr) or isinstance(b, npstub.Arr) or npstub.is_pd(a) or npstub.is_pd(b):
    return NotImplemented
  ta, tb = as_t(conc(a)), as_t(conc(b))
  if ta.sort() == I and z3.is_int_value(ta) and ta.as_long() in (0, 1):
    ta = z3.BoolVal(bool(ta.as_long()))
  if tb.sort() == I and z3.is_int_value(tb) and tb.as_long() in (0, 1):
    tb = z3.BoolVal(bool(tb.as_long()))
  if ta.sort() != B or tb.sort() != B:
    raise Unsupported('bitwise operation on symbolic integers')
  t = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](ta, tb)
  return SV(simp(t))


def sym_abs(x):
  x = lift(x)
  t = num_t(x)
  return SV(simp(z3.If(t >= 0, t, -t)), x.kind if x.kind == 'td' else None, x.null)


def sym_sqrt(x):
  x = conc(x)
  if not isinstance(x, SV):
    return math.inf if is_inf(x) and x > 0 else (math.sqrt(x) if x >= 0 else math.nan)
  t = simp(to_real(num_t(x)))
  if z3.is_rational_value(t):
    f = t.as_fraction()
    n, d = math.isqrt(max(f.numerator, 0)), math.isqrt(f.denominator)
    if f >= 0 and n * n == f.numerator and d * d == f.denominator:
      return SV(realval(fractions.Fraction(n, d)), None, x.null)
  c = ctx()
  c.defined(t >= 0, 'sqrt of a negative number')
  if c.quiet or any(occurs(t, v) for vs, _ in c.binders for v in vs):
    s = _SQRT(t)
    c.fact(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)), key=('sqrt', t.get_id()), keep=t)
    return SV(s, None, x.null)
  return SV(_sqrt_term(c, t), None, x.null)


def _sqrt_term(c, t):
  """sqrt(t) for ground t: reuses known roots, splits products and quotients."""
  from . import prover
  roots = c.data.setdefault('roots', [])      # (term r >= 0, its square)
  for r, sq in roots:
    if sq.eq(t):
      return r
  u = t
  for nm, df in c.defs:
    if nm.eq(t):
      u = df
  parts = None
  if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_DIV and not _is_num(u.arg(1)):
    a, b = u.arg(0), u.arg(1)
    if c.known(b > 0) is True:
      parts = ('/', a, b)
  elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_MUL and len(u.children()) == 2:
    a, b = u.children()
    if a.eq(b):
      r = simp(z3.If(a >= 0, a, -a))
      k = c.known(a >= 0)
      r = a if k is True else simp(-a) if k is False else r
      roots.append((r, t))
      return r
    if c.known(a >= 0) is True and c.known(b >= 0) is True:
      parts = ('*', a, b)
  if len(roots) <= 40:
    for r, sq in roots:
      if sq.eq(t) or (prover.maybe_equal(c, r * r, t) and c.prover._eq(c, simp(r * r) == t, (), 3)):
        roots.append((r, t))
        return r
  for f in c.data.get('scale_hints', ()):       # positive factors named by the contract
    for r, sq in list(roots):
      if prover.maybe_equal(c, f * f * sq, t) and c.prover._eq(c, simp(f * f * sq) == t, (), 3):
        roots.append((simp(f * r), t))
        return roots[-1][0]
  if parts is not None:
    op, a, b = parts
    ra, rb = _sqrt_term(c, simp(a)), _sqrt_term(c, simp(b))
    r = c.named(simp(ra / rb), 'quot') if op == '/' else simp(ra * rb)
    c.fact(r >= 0)
    roots.append((r, t))
    return r
  s = _SQRT(t)
  c.fact(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)), key=('sqrt', t.get_id()), keep=t)
  # sqrt(x) sqrt(y) = sqrt(x y)
  rw = c.data.setdefault('rewrite', [])
  own = [q for r, q in roots if z3.is_app(r) and r.decl().eq(_SQRT)]
  for y in own:
    for z in own:
      if z.eq(y):
        continue
      if prover.maybe_equal(c, z, t * y) and prover.rational_equal(z, t * y, 2000):
        rw.append((_SQRT(z), s * _SQRT(y)))
        c.fact(z3.Implies(z3.And(t >= 0, y >= 0), _SQRT(z) == s * _SQRT(y)))
  roots.append((s, t))
  return s


def root_quotient(c, q, num, den):
  """q == num/den: remember quotients of roots as roots themselves."""
  if not (z3.is_app(num) and num.decl().eq(_SQRT)):
    return
  roots = c.data.setdefault('roots', [])
  if c.known(den > 0) is True:
    roots.append((q, simp(num.arg(0) / (den * den))))


def nonlinear(t):
  stack = [t]
  while stack:
    x = stack.pop()
    if z3.is_app(x):
      k = x.decl().kind()
      if k == z3.Z3_OP_MUL and sum(0 if (z3.is_rational_value(a) or z3.is_int_value(a)) else 1 for a in x.children()) > 1:
        return True
      if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))):
        return True
      stack.extend(x.children())
  return False


def to_int(t):
  """floor as an Int term; a fresh name when the argument is non-linear."""
  t = simp(t)
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
    return t.arg(0)
  c = CTX
  if c is not None and not c.binders and nonlinear(t):
    memo = c.data.setdefault('floors', {})
    key = t.sexpr()
    if key not in memo:
      f = c.fresh('floor', I).t
      memo[key] = (f, t)
      c.fact(z3.And(z3.ToReal(f) <= t, t < z3.ToReal(f) + 1))
    return memo[key][0]
  return simp(z3.ToInt(t))


def sym_floor(x):
  x = conc(x)
  if not isinstance(x, SV):
    return float(math.floor(x))
  t = num_t(x)
  if t.sort() == I:
    return SV(to_real(t), None, x.null)
  return SV(z3.ToReal(to_int(t)), None, x.null)


def sym_ceil(x):
  return -sym_floor(-lift(x)) if isinstance(x, SV) else float(math.ceil(x))


def sym_ite(c, a, b):
  """if-then-else of scalars."""
  ct = as_t(c)
  ct = simp(ct)
  if is_true(ct):
    return a
  if is_false(ct):
    return b
  a, b = conc(a), conc(b)
  if not isinstance(a, SV) and not isinstance(b, SV) and a is b:
    return a
  if (isinstance(a, float) and (is_inf(a) or is_nan(a))) or (
      isinstance(b, float) and (is_inf(b) or is_nan(b))):
    return a if ctx().fork(ct) else b
  la, lb = lift(a), lift(b)
  ta, tb = la.t, lb.t
  if ta.sort() != tb.sort():
    ta, tb = _join(la, lb)
  kind = la.kind if la.kind == lb.kind else ('obj' if 'obj' in (la.kind, lb.kind) else None)
  null = None
  if la.null is not None or lb.null is not None:
    null = z3.If(ct, la.null if la.null is not None else z3.BoolVal(False),
                 lb.null if lb.null is not None else z3.BoolVal(False))
  return SV(simp(z3.If(ct, ta, tb)), kind, null)


def sym_max(a, b):
  return sym_ite(compare('>=', lift(a), b), a, b)


def sym_min(a, b):
  return sym_ite(compare('<=', lift(a), b), a, b)


def sym_int(x):
  """python int(): truncation."""
  x = conc(x)
  if not isinstance(x, SV):
    return int(x)
  t = num_t(x)
  if t.sort() == I:
    return SV(t, None, x.null)
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
    return SV(t.arg(0), None, x.null)
  if CTX is not None and not CTX.binders:
    k = CTX.known(t >= 0)
    if k is True:
      return SV(to_int(t), None, x.null)
    if k is False:
      return SV(simp(-to_int(-t)), None, x.null)
  return SV(simp(z3.If(t >= 0, to_int(t), -to_int(-t))), None, x.null)


def sym_float(x):
  x = conc(x)
  if isinstance(x, SV):
    return SV(to_real(num_t(x)), None, x.null)
  return float(x)


# --------------------------------------------------------------------------
class Obligation:
  __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'path', 'scoped')

  def __init__(self, name, status, backend, time, detail, path):
    self.name, self.status, self.backend = name, status, backend
    self.time, self.detail, self.path = time, detail, path


class Ctx:
  """State of one path of one contract."""

  def __init__(self, prefix=(), definedness='prove', prover=None, collector=None):
    self.prefix = list(prefix)
    self.decisions = []
    self.pending = []        # alternative prefixes discovered
    self.pc = []             # ground path condition + assumptions + facts
    self.axioms = []         # quantified
    self.fact_keys = {}
    self.definedness = definedness
    self.prover = prover
    self.collector = collector
    self.tokens = {}
    self.fresh_n = {}
    self.binders = []        # stack of (vars, guard)
    self.keep = []
    self.events = []
    self.label = ''
    self.sums = None
    self.trace = []          # human readable decisions
    self.inputs = {}         # name -> SV, for counterexamples
    self.data = {}
    self.quiet = 0
    self.defs = []
    self.hyp_version = 0
    self.on_scope = None     # called when a scope ends

  # -- names
  def fresh(self, name, sort=R, kind=None):
    n = self.fresh_n.get(name, 0)
    self.fresh_n[name] = n + 1
    nm = name if n == 0 else f'{name}!{n}'
    c = z3.Const(nm, sort)
    return SV(c, kind)

  def real(self, name):
    return self.fresh(name, R)

  def int(self, name):
    return self.fresh(name, I)

  def bool(self, name):
    return self.fresh(name, B)

  def token(self, sv, spec=''):
    v = simp(sv.t)
    if z3.is_int_value(v) and sv.kind in ('num',) and not spec:
      return str(v.as_long())
    tid = f'\u27e6{len(self.tokens)}\u27e7'
    for k, (s, sp) in self.tokens.items():
      if sp == spec and s.kind == sv.kind and s.t.eq(sv.t):
        return k
    self.tokens[tid] = (sv, spec)
    return tid

  # -- assumptions
  def assume(self, t, check=True):
    t = as_t(t) if not z3.is_expr(t) else t
    t = simp(t)
    if is_true(t):
      return
    if is_false(t):
      raise PathEnd('assumption false')
    if self.binders:
      t = self._close(t)
    self.hyp(t)

  def axiom(self, t):
    self.axioms.append(t)

  def fact(self, t, key=None, keep=None):
    if self.quiet:
      return
    if key is not None:
      if key in self.fact_keys:
        return
      self.fact_keys[key] = True
      self.keep.append(keep)
    if self.binders:
      t = self._close(t)
      if has_quant(t):
        self.axioms.append(t)
        return
    self.pc.append(t)

  def _close(self, t):
    for vs, guard in reversed(self.binders):
      used = [v for v in vs if occurs(t, v)]
      if used:
        t = z3.ForAll(used, z3.Implies(guard, t)) if not is_true(guard) else z3.ForAll(used, t)
    return t

  def defined(self, cond, what):
    if self.quiet:
      return
    cond = simp(cond)
    if is_true(cond):
      return
    if self.definedness == 'assume':
      self.fact(cond)
      return
    if self.definedness == 'ignore':
      return
    key = ('def', cond.get_id())
    if key in self.fact_keys:
      return
    self.fact_keys[key] = True
    self.keep.append(cond)
    if self.binders:
      g = self._close(cond)
      self.prove(g, f'defined: {what}')
    else:
      self.prove(cond, f'defined: {what}')
    self.fact(cond)

  # -- forks
  def fork(self, cond):
    cond = simp(cond)
    if is_true(cond):
      return True
    if is_false(cond):
      return False
    if self.binders:
      for vs, _ in self.binders:
        if any(occurs(cond, v) for v in vs):
          raise Unsupported('branch on an element of a symbolic collection')
    if self.quiet:
      raise Unsupported('branch while inspecting an element')
    k = len(self.decisions)
    if k < len(self.prefix):
      d = self.prefix[k]
    else:
      t_ok = self.prover.feasible(self, cond)
      f_ok = self.prover.feasible(self, z3.Not(cond)) if t_ok else True
      if t_ok and f_ok and self.trace:
        if self.prover._scaled(self, cond, ()):
          f_ok = False
        elif self.prover._scaled(self, z3.Not(cond), ()):
          t_ok = False
      if t_ok and f_ok:
        self.pending.append(self.decisions + [False])
        d = True
      else:
        d = t_ok
    self.decisions.append(d)
    if len(self.decisions) > 400:
      raise Unsupported('more than 400 branch decisions on one path')
    c = cond if d else simp(z3.Not(cond))
    self.trace.append(c)
    self.hyp(c)
    return d

  def hyp(self, t):
    """add a hypothesis; quantified ones are skolemised."""
    self.hyp_version += 1
    if not has_quant(t):
      self.pc.append(t)
      return
    g = z3.Goal()
    g.add(t)
    for sub in z3.Tactic('snf')(g):
      for f in sub:
        (self.axioms if has_quant(f) else self.pc).append(f)

  def known(self, cond):
    """True/False when the hypotheses decide the condition, else None."""
    cond = simp(cond)
    if is_true(cond):
      return True
    if is_false(cond):
      return False
    if self.prover._scaled(self, cond, ()):
      return True
    if self.prover._scaled(self, z3.Not(cond), ()):
      return False
    if self.prover.quick_unsat(self, [z3.Not(cond)]):
      return True
    if self.prover.quick_unsat(self, [cond]):
      return False
    return None

  def lemma(self, t, name, only=None):
    """prove, then use."""
    t = as_t(t) if not z3.is_expr(t) else t
    ok = self.prove(t, name, only=only)
    if ok:
      self.hyp(simp(t))
    return ok

  def soft(self, t):
    """an optional step: used if it can be proved, otherwise ignored."""
    st = self.prover.quick_unsat(self, [z3.Not(t)], strong=True, rlimit=4_000_000)
    if st:
      self.hyp(simp(t))
    return st

  def schema(self, n, f, name):
    """a lemma over n fresh reals: f(*xs) -> (premises, conclusion).  Proved once;
    the returned function discharges the premises at given terms and then adds
    the conclusion as a hypothesis."""
    xs = [z3.Real(f'{name}!{i}') for i in range(n)]
    pre, con = f(*xs)
    self.prove(z3.Implies(z3.And(*pre), con), f'schema {name}', only=[])

    def inst(*ts, hints=()):
      ts = [to_real(num_t(t)) for t in ts]
      pre, con = f(*ts)
      ok = True
      for i, q in enumerate(pre):
        ok = self.prove(q, f'premise {i} of {name}', only=list(hints) or None) and ok
      if ok:
        self.hyp(simp(con))
      return ok
    return inst

  def decide(self, n, label=''):
    """Nondeterministic concrete choice in range(n) (all are explored)."""
    k = len(self.decisions)
    if k < len(self.prefix):
      d = self.prefix[k]
    else:
      for j in range(1, n):
        self.pending.append(self.decisions + [j])
      d = 0
    self.decisions.append(d)
    return d

  def named(self, t, name):
    """a name for a ground non-polynomial term (defining equation in pc)."""
    if self.quiet or not NAMING or _is_num(t):
      return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and _is_num(t.arg(1)):
      return t
    for vs, _ in self.binders:
      if any(occurs(t, v) for v in vs):
        return t
    memo = self.data.setdefault('named', {})
    key = t.sexpr()
    if key not in memo:
      q = self.fresh(name, t.sort()).t
      memo[key] = q
      self.defs.append((q, t))
      self.pc.append(q == t)
      if t.decl().kind() == z3.Z3_OP_DIV:
        root_quotient(self, q, t.arg(0), t.arg(1))
    return memo[key]

  # -- obligations
  def prove(self, goal, name, only=None):
    """obligation; with `only`, first tried from these hypotheses (and the
    definitions of the names in the goal) alone."""
    from . import prover
    goal = as_t(goal) if not z3.is_expr(goal) else goal
    ok = False
    if only is not None:
      ok, backend, dt, detail = self.prover.prove_only(self, goal, only)
    if not ok:
      ok, backend, dt, detail = self.prover.prove(self, goal, name)
    if VERBOSE:
      print(f'   [{"ok" if ok else "FAIL"}] {dt:.2f}s {backend} {self.label}{name}', flush=True)
    self.collector.add(Obligation(f'{self.label}{name}', 'discharged' if ok else 'failed', backend, dt,
                                  detail, list(self.decisions)))
    return ok

  def bound(self, vs, guard):
    return _Binder(self, vs, guard)

  def scope(self):
    """`with c.scope():` what is assumed inside is forgotten afterwards."""
    return _Scope(self)


class _Scope:

  def __init__(self, c):
    self.c = c

  def __enter__(self):
    c = self.c
    part = lambda x: dict(x) if type(x) is dict else list(x) if type(x) is list else x
    self.saved = (list(c.pc), list(c.axioms), dict(c.fact_keys), {k: part(x) for k, x in c.data.items()}, list(c.defs))
    self.first = len(c.collector.obls)

  def __exit__(self, *a):
    c = self.c
    if a[0] is None and c.on_scope is not None:
      c.on_scope(c, self.first)
    c.pc, c.axioms, c.fact_keys, c.data, c.defs = self.saved
    c.hyp_version += 1


class _Binder:

  def __init__(self, c, vs, guard):
    self.c, self.vs, self.guard = c, vs, guard

  def __enter__(self):
    for vs, _ in self.c.binders:
      for v in self.vs:
        if any(v.eq(w) for w in vs):
          raise Unsupported(f'variable capture: {v}')
    self.c.binders.append((self.vs, self.guard))

  def __exit__(self, *a):
    self.c.binders.pop()


_hq_cache = {}


def has_quant(t):
  stack, seen = [t], set()
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_quantifier(x):
      return True
    stack.extend(x.children())
  return False


def occurs(t, v):
  vid = v.get_id()
  stack, seen = [t], set()
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i == vid:
      return True
    if i in seen:
      continue
    seen.add(i)
    if z3.is_quantifier(x):
      stack.append(x.body())
    else:
      stack.extend(x.children())
  return False


def collect_apps(terms, decl_names):
  out, seen = {}, set()
  stack = list(terms)
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_quantifier(x):
      stack.append(x.body())
      continue
    if z3.is_app(x):
      if x.decl().name() in decl_names and x.num_args():
        if not has_var(x):
          out[i] = x
      stack.extend(x.children())
  return list(out.values())


def has_var(t):
  stack, seen = [t], set()
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_var(x):
      return True
    if z3.is_quantifier(x):
      return True
    stack.extend(x.children())
  return False
