"""Symbolic contracts for the numpy operations used by feedx.

Arrays have dimensions that are either concrete ints or `Dom`s (index domains of
unbounded symbolic length); the content is a function from indices to scalars.
"""
from __future__ import annotations
import math
import types
import numpy as _np
import z3
from . import core
from .core import (SV, R, I, B, Unsupported, ctx, lift, num_t, to_real, as_t, simp, sym_ite, sym_sqrt, sym_abs,
                   sym_floor, conc, is_inf, is_nan)
from .sums import Root, conjuncts as _conjuncts

inf = _np.inf
nan = _np.nan


def is_pd(x):
  return getattr(x, '_is_pd_stub', False)


# --------------------------------------------------------------------------
class Dom:
  """An ordered finite index domain.

  branches: list of (roots, pred) with pred(*vars)->z3 Bool.
  posfn(idx)->z3 Int gives the position of an element (None if unknown).
  """
  _uid = 0

  def __init__(self, branches, posfn=None, order='nat', card=None, full=False, name=''):
    self.branches = branches
    self.posfn = posfn
    self.order = order      # hashable description of the sequence order
    self._card = card
    self.full = full        # a whole root in natural order
    self.name = name
    self._key = None
    self.meta = {}

  @staticmethod
  def upto(n, name):
    """the index set {0..n-1}; shared between arrays of syntactically equal length."""
    c = ctx()
    key = simp(as_t(n)).sexpr()
    memo = c.data.setdefault('roots_by_n', {})
    if key not in memo:
      Dom.range(n, name)
    root = memo[key]
    return Dom([((root,), lambda i: z3.BoolVal(True))], posfn=lambda idx: idx[1][0], card=as_t(n), full=True, name=name)

  @staticmethod
  def range(n, name):
    c = ctx()
    k = c.fresh_n.get('root', 0)
    c.fresh_n['root'] = k + 1
    root = Root(as_t(n), f'{name}#{k}')
    c.data.setdefault('roots_by_n', {}).setdefault(simp(as_t(n)).sexpr(), root)
    d = Dom([((root,), lambda i: z3.BoolVal(True))], posfn=lambda idx: idx[1][0], card=as_t(n), full=True, name=name)
    return d

  @property
  def root(self):
    if len(self.branches) != 1 or len(self.branches[0][0]) != 1:
      raise Unsupported('single-root domain expected')
    return self.branches[0][0][0]

  def key(self):
    if self._key is None:
      parts = []
      for roots, pred in self.branches:
        vs = [z3.Int(f'k_{r.name}_{j}') for j, r in enumerate(roots)]
        parts.append((tuple(r.name for r in roots), tuple(sorted({g.sexpr() for g in _conjuncts(pred(*vs))}))))
      self._key = (tuple(parts), self.order)
    return self._key

  def same(self, o):
    return self is o or self.key() == o.key()

  def same_rows(self, o):
    """the same elements in the same order (decided by the prover if written differently)."""
    return self.same(o) or (self.order == o.order and self.same_set(o))

  def same_set(self, o):
    if self is o or self.key()[0] == o.key()[0]:
      return True
    if len(self.branches) != len(o.branches):
      return False
    c = ctx()
    for (ra, pa), (rb, pb) in zip(self.branches, o.branches):
      if len(ra) != len(rb) or any(x.name != y.name for x, y in zip(ra, rb)):
        return False
      vs = [z3.FreshInt('same') for _ in ra]
      a, b = simp(pa(*vs)), simp(pb(*vs))
      if not a.eq(b) and not c.prover.quick_unsat(c, [z3.And(*[r.mem(x) for r, x in zip(ra, vs)]), a != b]):
        return False
    return True

  def mem(self, idx):
    """z3 Bool: idx=(branch, vars) is an element."""
    roots, pred = self.branches[idx[0]]
    return z3.And(*[r.mem(v) for r, v in zip(roots, idx[1])], pred(*idx[1]))

  def card(self):
    """z3 Int term."""
    if self._card is not None:
      return self._card
    c = ctx()
    tot = None
    for b, (roots, pred) in enumerate(self.branches):
      vs = [r.var(len(c.binders) * 4 + j) for j, r in enumerate(roots)]
      with c.bound(vs, z3.And(*[r.mem(v) for r, v in zip(roots, vs)])):
        p = simp(pred(*vs))
      t = c.sums.card(list(roots), vs, p)
      tot = t if tot is None else tot + t
    self._card = simp(tot)
    return self._card

  def sum(self, f):
    """Σ f(idx) as a Real z3 term; f returns a scalar."""
    c = ctx()
    tot = None
    for b, (roots, pred) in enumerate(self.branches):
      vs = [r.var(len(c.binders) * 4 + j) for j, r in enumerate(roots)]
      with c.bound(vs, z3.And(*[r.mem(v) for r, v in zip(roots, vs)])):
        p = simp(pred(*vs))
      guard = z3.And(*[r.mem(v) for r, v in zip(roots, vs)], p)
      with c.bound(vs, guard):
        body = f((b, tuple(vs)))
        body = simp(to_real(num_t(body)))
      t = c.sums.sum(list(roots), vs, p, body)
      if _square(body):
        c.fact(t >= 0, key=('sq', t.get_id()), keep=t)
      tot = t if tot is None else tot + t
    return simp(tot)

  def filter(self, pred, order=None, card=None):
    """sub-domain; pred(idx)->scalar/bool."""
    def mk(b, roots, p):
      return (roots, lambda *vs, b=b, p=p: z3.And(p(*vs), as_t(pred((b, tuple(vs))))))
    d = Dom([mk(b, roots, p) for b, (roots, p) in enumerate(self.branches)], posfn=None,
            order=order if order is not None else self.order, card=card, name=self.name)
    if order is None and len(self.branches) == 1:
      # the elements keep their relative order
      d.meta['order_key'] = self.posfn or self.meta.get('order_key')
      d.meta['sorted_by'] = self.meta.get('sorted_by')
    return d

  def positioned(self):
    """the same elements in the same order, with positions."""
    k = self.meta.get('order_key')
    if self.posfn is not None or k is None:
      return self
    rk, nm, _ = _rank_fn(self, lambda i: SV(k(i)), ('kept order',))
    d = Dom(self.branches, posfn=lambda idx: rk(*idx[1]), order=self.order, card=self.card(), name=self.name)
    d.meta['sorted_by'] = self.meta.get('sorted_by')
    return d

  def skolem(self, name, b=0):
    """fresh arbitrary element (assumes membership)."""
    c = ctx()
    roots, pred = self.branches[b]
    vs = tuple(c.fresh(f'{name}', I).t for _ in roots)
    c.assume(self.mem((b, vs)))
    return (b, vs)

  def forall(self, f):
    """z3 formula ∀ idx∈dom. f(idx)."""
    c = ctx()
    out = []
    for b, (roots, pred) in enumerate(self.branches):
      vs = [z3.Int(f'q{len(c.binders)}_{r.name}_{j}') for j, r in enumerate(roots)]
      with c.bound(vs, z3.And(*[r.mem(v) for r, v in zip(roots, vs)])):
        guard = simp(z3.And(*[r.mem(v) for r, v in zip(roots, vs)], pred(*vs)))
      with c.bound(vs, guard):
        body = as_t(f((b, tuple(vs))))
      out.append(z3.ForAll(vs, z3.Implies(guard, body)))
    return out[0] if len(out) == 1 else z3.And(*out)

  def exists(self, f):
    c = ctx()
    out = []
    for b, (roots, pred) in enumerate(self.branches):
      vs = [z3.Int(f'q{len(c.binders)}_{r.name}_{j}') for j, r in enumerate(roots)]
      with c.bound(vs, z3.And(*[r.mem(v) for r, v in zip(roots, vs)])):
        guard = simp(z3.And(*[r.mem(v) for r, v in zip(roots, vs)], pred(*vs)))
      with c.bound(vs, guard):
        body = as_t(f((b, tuple(vs))))
      out.append(z3.Exists(vs, z3.And(guard, body)))
    return out[0] if len(out) == 1 else z3.Or(*out)

  def at(self, k):
    """element at position k (python int or SV)."""
    c = ctx()
    n = self.card()
    kk = as_t(k)
    if isinstance(k, int) and k < 0:
      kk = n + k
    c.defined(z3.And(kk >= 0, kk < n), 'index out of bounds')
    if self.full:
      return (0, (simp(kk),))
    memo = self.meta.setdefault('at', [])
    for (t, e) in memo:
      if t.eq(simp(kk)):
        return e
    if len(self.branches) != 1:
      raise Unsupported('positional access into a union domain')
    e = (0, tuple(c.fresh(f'at_{self.name}', I).t for _ in self.branches[0][0]))
    c.fact(self.mem(e))
    if self.posfn is not None:
      c.fact(self.posfn(e) == kk)
    memo.append((simp(kk), e))
    return e


def _square(t):
  """syntactic square (times a non-negative numeral)."""
  if not z3.is_app(t):
    return False
  k = t.decl().kind()
  if k == z3.Z3_OP_POWER:
    e = simp(t.arg(1))
    return (z3.is_int_value(e) or z3.is_rational_value(e)) and int(e.as_fraction() if z3.is_rational_value(e) else e.as_long()) % 2 == 0
  if k == z3.Z3_OP_MUL:
    cnt = {}
    for a in t.children():
      if z3.is_rational_value(a) or z3.is_int_value(a):
        if a.as_fraction() < 0 if z3.is_rational_value(a) else a.as_long() < 0:
          return False
        continue
      cnt[a.sexpr()] = cnt.get(a.sexpr(), 0) + 1
    return bool(cnt) and all(v % 2 == 0 for v in cnt.values())
  return False


class PosSV(SV):
  """An integer that denotes the position of element `idx` of `dom`."""
  __slots__ = ('dom', 'idx')

  def __init__(self, dom, idx):
    t = dom.posfn(idx) if dom.posfn is not None else idx[1][0]
    super().__init__(t, 'num')
    self.dom, self.idx = dom, idx


class Cell:
  __slots__ = ('fn', 'ro')

  def __init__(self, fn):
    self.fn = fn
    self.ro = False


class DType:

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return self.name

  __str__ = __repr__

  def __eq__(self, o):
    if isinstance(o, DType):
      return self.name == o.name
    if o in (float, int, bool, str, object):
      return self.name == {float: 'float', int: 'int', bool: 'bool', str: 'obj', object: 'obj'}[o]
    return False

  def __hash__(self):
    return hash(self.name)


def is_dom(d):
  return isinstance(d, Dom)


class Arr:
  __array_priority__ = 1e9
  __array_ufunc__ = None

  def __init__(self, dims, fn, dtype=None, cell=None):
    self.dims = tuple(dims)
    self.cell = cell if cell is not None else Cell(fn)
    self._dtype = dtype
    self.view_write = None   # function(idx, val) for write-through views

  # -- basic
  def fn(self, *idx):
    return self.cell.fn(*idx)

  @property
  def shape(self):
    return tuple(d if isinstance(d, int) else SV(d.card()) for d in self.dims)

  @property
  def ndim(self):
    return len(self.dims)

  @property
  def size(self):
    r = 1
    for s in self.shape:
      r = s * r
    return r

  @property
  def dtype(self):
    return DType(self._dtype or 'float')

  @property
  def values(self):
    raise AttributeError('values')

  @property
  def T(self):
    if self.ndim <= 1:
      return self
    return Arr(self.dims[::-1], lambda *ix: self.fn(*ix[::-1]), self._dtype)

  def __repr__(self):
    return f'Arr{tuple(d if isinstance(d, int) else d.name for d in self.dims)}'

  def __str__(self):
    return '<array>'

  def __format__(self, s):
    return '<array>'

  def __deepcopy__(self, memo):
    return self.copy()

  def copy(self):
    f = self.cell.fn
    return Arr(self.dims, f, self._dtype)

  def __bool__(self):
    if self.ndim == 0:
      return bool(self.fn())
    raise Unsupported('truth value of an array')

  def __len__(self):
    raise Unsupported('len() must go through the stub')

  def _len(self):
    if self.ndim == 0:
      raise TypeError('len() of unsized object')
    d = self.dims[0]
    return d if isinstance(d, int) else SV(d.card())

  def __contains__(self, x):
    # numpy: (a == x).any()
    from engine import pdstub
    y = enary(lambda p: SV(pdstub.key_eq(p, x)), self)
    return bool(any_(y))

  def __iter__(self):
    d = self.dims[0]
    if isinstance(d, int):
      for k in range(d):
        yield self[k]
      return
    rule = ctx().data.get('loop_rule')     # a loop invariant supplied by the contract
    if rule is None:
      raise Unsupported('iteration over a symbolic array')
    yield from rule(self)

  __hash__ = None

  # -- elementwise
  def __neg__(self):
    return emap(lambda x: -1 * lift(x), self)

  def __abs__(self):
    return emap(sym_abs, self)

  def __invert__(self):
    return emap(lambda x: ~lift(x), self)

  def astype(self, t):
    return emap(lambda x: cast_scalar(x, t), self, dtype=dtype_name(t))

  def flatten(self):
    return _flatten(self)

  ravel = flatten

  def reshape(self, *shape):
    return reshape(self, shape[0] if len(shape) == 1 else shape)

  def mean(self, axis=None, **k):
    return mean(self, axis=axis)

  def sum(self, axis=None, **k):
    return sum_(self, axis=axis)

  def var(self, axis=None, ddof=0):
    return var(self, axis=axis, ddof=ddof)

  def std(self, axis=None, ddof=0):
    return std(self, axis=axis, ddof=ddof)

  def min(self, axis=None):
    return min_(self, axis=axis)

  def max(self, axis=None):
    return max_(self, axis=axis)

  def any(self, axis=None):
    return any_(self, axis=axis)

  def all(self, axis=None):
    return all_(self, axis=axis)

  def argsort(self, *a, **k):
    return argsort(self, *a, **k)

  def dot(self, o):
    return matmul(self, o)

  def cumsum(self, axis=None):
    return cumsum(self, axis)

  def clip(self, min=None, max=None):
    return clip(self, min, max)

  def squeeze(self, axis=None):
    return squeeze(self, axis)

  def argmin(self, axis=None):
    return argmin(self, axis=axis)

  def argmax(self, axis=None):
    return argmax(self, axis=axis)

  def transpose(self):
    return self.T

  def item(self):
    if all(d == 1 for d in self.dims):
      return self.fn(*([0] * self.ndim))
    raise Unsupported('item')

  def tolist(self):
    if self.ndim == 1 and isinstance(self.dims[0], int):
      return [self.fn(k) for k in range(self.dims[0])]
    raise Unsupported('tolist of a symbolic array')

  # -- indexing
  def __getitem__(self, key):
    return getitem(self, key)

  def __setitem__(self, key, val):
    setitem(self, key, val)

  def __matmul__(self, o):
    return matmul(self, o)

  def __rmatmul__(self, o):
    return matmul(o, self)

  def _iop(self, op, o):
    r = ebin(op, self, o)
    if tuple(map(_dimkey, r.dims)) != tuple(map(_dimkey, self.dims)):
      raise Unsupported('in-place op changing shape')
    f = r.cell.fn
    _write(self, f)
    return self

  def __iadd__(self, o):
    return self._iop('+', o)

  def __isub__(self, o):
    return self._iop('-', o)

  def __imul__(self, o):
    return self._iop('*', o)

  def __itruediv__(self, o):
    return self._iop('/', o)


def _write(arr, f):
  if arr.cell.ro:
    raise Unsupported('write into a possible view')
  if arr.view_write is not None:
    raise Unsupported('write into a view')
  arr.cell.fn = f


def _dimkey(d):
  return d if isinstance(d, int) else d.key()


def _mk(op):
  def f(self, o):
    if is_pd(o):
      return NotImplemented
    return ebin(op, self, o)

  def r(self, o):
    if is_pd(o):
      return NotImplemented
    return ebin(op, o, self)
  return f, r


for _op, _nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('//', 'floordiv'), ('%', 'mod'),
                 ('**', 'pow'), ('&', 'and'), ('|', 'or'), ('^', 'xor')):
  _f, _r = _mk(_op)
  setattr(Arr, f'__{_nm}__', _f)
  setattr(Arr, f'__r{_nm}__', _r)
for _op, _nm in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')):
  _f, _r = _mk(_op)
  setattr(Arr, f'__{_nm}__', _f)


def sbin(op, a, b):
  if op in ('&', '|', '^'):
    return core.boolop(op, a, b)
  if op in core._CMP:
    r = core.compare(op, a, b)
    return r
  a, b = conc(a), conc(b)
  if not isinstance(a, SV) and not isinstance(b, SV):
    if is_inf(a) or is_inf(b) or is_nan(a) or is_nan(b):
      return core.arith(op, a, b) if False else _np_scalar(op, a, b)
    return core.arith(op, lift(a), b)
  return core.arith(op, a, b)


def _np_scalar(op, a, b):
  with _np.errstate(all='ignore'):
    f = {'+': _np.add, '-': _np.subtract, '*': _np.multiply, '/': _np.divide}[op]
    return float(f(a, b))


def dtype_name(t):
  if isinstance(t, DType):
    return t.name
  return {float: 'float', int: 'int', bool: 'bool', str: 'obj', object: 'obj', 'float': 'float', 'int': 'int',
          'float64': 'float', 'int64': 'int', 'str': 'obj', 'bool': 'bool', 'object': 'obj'}.get(t) or _dt2(t)


def _dt2(t):
  real = REAL_TYPES.get(id(t))
  if real is not None:
    return dtype_name(real)
  raise Unsupported(f'dtype {t}')


REAL_TYPES = {}


def cast_scalar(x, t):
  n = dtype_name(t)
  x = conc(x)
  if n == 'float':
    if isinstance(x, SV) and x.kind == 'obj':
      return SV(PARSE(x.t), None, x.null)
    return core.sym_float(x)
  if n == 'int':
    if isinstance(x, SV) and x.t.sort() == B:
      return SV(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SV) and x.kind == 'obj':
      return SV(simp(z3.ToInt(PARSE(x.t))))
    return core.sym_int(x)
  if n == 'bool':
    if isinstance(x, SV) and x.t.sort() != B:
      return SV(x.t != 0)
    return x
  if n == 'obj':
    return to_str(x)
  raise Unsupported(f'cast to {t}')


PARSE = z3.Function('parse_number', I, R)


def to_str(x):
  """str() of a column value: idempotent on strings."""
  if isinstance(x, SV):
    if x.kind == 'obj':
      # already an object: strings are unchanged, other objects are rendered
      if z3.is_app(x.t) and x.t.decl().eq(core.TOSTR):
        return x
      return SV(core.TOSTR(x.t), 'obj')
    if x.kind == 'str':
      return x
    return SV(core.TOSTR(NUMOBJ(to_real(num_t(x)))), 'obj')
  return str(x)


NUMOBJ = z3.Function('number_as_object', R, I)


# --------------------------------------------------------------------------
def as_arr(x):
  if isinstance(x, Arr):
    return x
  if is_pd(x):
    return x._arr()
  if isinstance(x, (list, tuple)):
    return array(x)
  if isinstance(x, _np.ndarray):
    a = x
    return Arr(a.shape, lambda *ix: conc(a[ix]))
  if isinstance(x, (SV, int, float, bool, str)) or x is None or isinstance(x, (_np.number, _np.bool_)):
    return Arr((), lambda: x)
  raise Unsupported(f'array of {type(x).__name__}')


def _unwrap(a):
  if isinstance(a, Arr) and a.ndim == 0:
    return a.fn()
  return a


def emap(f, a, dtype=None):
  if not isinstance(a, (Arr,)) and not is_pd(a) and not isinstance(a, (list, tuple, _np.ndarray)):
    return f(a)
  if is_pd(a):
    return a._map(f, dtype)
  a = as_arr(a)
  g = a.cell.fn
  return _unwrap(Arr(a.dims, lambda *ix: f(g(*ix)), dtype))


def bdims(da, db):
  """broadcast two dims; returns (dim, mapA, mapB) index maps."""
  ident = lambda i: i
  if isinstance(da, int) and isinstance(db, int):
    if da == db:
      return da, ident, ident
    if da == 1:
      return db, (lambda i: 0), ident
    if db == 1:
      return da, ident, (lambda i: 0)
    raise ValueError('operands could not be broadcast together')
  if isinstance(da, int):
    if da == 1:
      return db, (lambda i: 0), ident
    da = int_dom(da)
    raise Unsupported('broadcast of a concrete with a symbolic length')
  if isinstance(db, int):
    if db == 1:
      return da, ident, (lambda i: 0)
    raise Unsupported('broadcast of a symbolic with a concrete length')
  if da.same(db):
    return da, ident, ident
  c = ctx()
  na, nb = da.card(), db.card()
  # equal length required, otherwise numpy raises (or broadcasts a length 1 array)
  if not c.fork(na == nb):
    if c.fork(na == 1) or c.fork(nb == 1):
      raise Unsupported('length-1 broadcast of a symbolic array')
    raise ValueError('operands could not be broadcast together')
  if db.full and da.posfn is not None:
    return da, ident, (lambda i: (0, (da.posfn(i),)))
  if da.full and db.posfn is not None:
    return db, (lambda i: (0, (db.posfn(i),))), ident
  raise Unsupported('elementwise operation on differently indexed arrays')


def broadcast(*arrs):
  """returns dims and list of fns over the common index."""
  nd = max(a.ndim for a in arrs)
  fns = []
  dims = None
  maps = [None] * len(arrs)
  alldims = [(1,) * (nd - a.ndim) + a.dims for a in arrs]
  dims = list(alldims[0])
  chain = [[(lambda i: i) for _ in range(nd)] for _ in arrs]
  for k in range(1, len(arrs)):
    for d in range(nd):
      nd_, ma, mb = bdims(dims[d], alldims[k][d])
      dims[d] = nd_
      for j in range(k):
        old = chain[j][d]
        chain[j][d] = (lambda i, old=old, ma=ma: old(ma(i)))
      chain[k][d] = mb
  out = []
  for j, a in enumerate(arrs):
    f = a.cell.fn
    off = nd - a.ndim
    out.append(lambda *ix, f=f, ch=chain[j], off=off: f(*[ch[d](ix[d]) for d in range(off, len(ix))]))
  return dims, out


def ebin(op, a, b):
  a, b = as_arr(a), as_arr(b)
  dims, (fa, fb) = broadcast(a, b)
  return _unwrap(Arr(dims, lambda *ix: sbin(op, fa(*ix), fb(*ix)), 'bool' if op in core._CMP else None))


def enary(f, *args):
  if any(is_pd(a) for a in args):
    for a in args:
      if is_pd(a):
        return a._enary(f, args)
  arrs = [as_arr(a) for a in args]
  if all(a.ndim == 0 for a in arrs):
    return f(*[a.fn() for a in arrs])
  dims, fns = broadcast(*arrs)
  return Arr(dims, lambda *ix: f(*[g(*ix) for g in fns]))


# -- reductions -------------------------------------------------------------
def reduce_axis(a, axis, red):
  """red(dim, f) reduces a one dimensional function."""
  a = as_arr(a)
  if a.ndim == 0:
    return a.fn()
  if axis is None:
    if a.ndim == 1:
      return red(a.dims[0], lambda i: a.fn(i))
    def rec(k, ix):
      if k == a.ndim:
        return a.fn(*ix)
      return red(a.dims[k], lambda i: rec(k + 1, ix + (i,)))
    return rec(0, ())
  ax = axis if axis >= 0 else a.ndim + axis
  f = a.cell.fn
  dims = a.dims[:ax] + a.dims[ax + 1:]
  d = a.dims[ax]
  return _unwrap(Arr(dims, lambda *ix: red(d, lambda i: f(*ix[:ax], i, *ix[ax:]))))


def _ssum(d, f):
  if isinstance(d, int):
    r = 0
    for k in range(d):
      v = f(k)
      if isinstance(v, SV) and v.t.sort() == B:
        v = SV(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
      r = v if k == 0 else sbin('+', r, v)
    return r
  # boolean summand: a count
  c = ctx()
  probe = peek(d, f)
  if isinstance(probe, SV) and probe.t.sort() == B:
    return SV(d.filter(lambda i: f(i)).card())
  t = d.sum(f)
  if isinstance(probe, SV) and probe.t.sort() == I or isinstance(probe, (int,)) and not isinstance(probe, SV):
    if _intable(t) is not None:
      return SV(_intable(t))
    n = z3.ToInt(t)
    c.fact(z3.ToReal(n) == t)      # a sum of integers is an integer
    return SV(simp(n))
  return SV(t)


def _intable(t):
  """an Int term equal to the Real term t when it is syntactically integral."""
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
    return t.arg(0)
  return None


def peek(d, f):
  """f at an arbitrary element, without emitting facts or obligations."""
  c = ctx()
  c.quiet += 1
  try:
    return f(_probe(d))
  finally:
    c.quiet -= 1


def _probe(d):
  roots, _ = d.branches[0]
  return (0, tuple(r.var(97 + j) for j, r in enumerate(roots)))


def _slen(d):
  return d if isinstance(d, int) else SV(d.card())


def _smean(d, f):
  return sbin('/', _ssum(d, f), _slen(d))


def sum_(a, axis=None, **k):
  return reduce_axis(a, axis, _ssum)


def mean(a, axis=None, **k):
  return reduce_axis(a, axis, _smean)


def _svar(d, f, ddof):
  m = _smean(d, f)
  return sbin('/', _ssum(d, lambda i: sbin('*', sbin('-', f(i), m), sbin('-', f(i), m))), sbin('-', _slen(d), ddof))


def var(a, axis=None, ddof=0, **k):
  return reduce_axis(a, axis, lambda d, f: _svar(d, f, ddof))


def std(a, axis=None, ddof=0, **k):
  return sqrt(var(a, axis=axis, ddof=ddof))


def _sany(d, f):
  if isinstance(d, int):
    r = z3.BoolVal(False)
    for k in range(d):
      r = z3.Or(r, as_t(f(k), B))
    return SV(simp(r))
  return SV(d.exists(lambda i: SV(as_t(f(i), B))))


def _sall(d, f):
  if isinstance(d, int):
    r = z3.BoolVal(True)
    for k in range(d):
      r = z3.And(r, as_t(f(k), B))
    return SV(simp(r))
  return SV(d.forall(lambda i: SV(as_t(f(i), B))))


def any_(a, axis=None, **k):
  return reduce_axis(a, axis, _sany)


def all_(a, axis=None, **k):
  return reduce_axis(a, axis, _sall)


def _extreme(d, f, sign):
  """element of d with the smallest (sign=1) / largest value; returns idx."""
  if isinstance(d, int):
    raise Unsupported('argmin over concrete dims')
  c = ctx()
  # the element is a function of the domain and of the values
  cache = c.data.setdefault('extreme', {})
  probe = peek(d, f)
  key = (d.key(), num_t(probe).sexpr(), sign)
  if key in cache:
    return cache[key]
  c.defined(d.card() >= 1, 'reduction of an empty array')
  if len(d.branches) != 1:
    raise Unsupported('extreme of a union domain')
  # the first extreme element depends on the order relation only
  fns = c.data.setdefault('extreme_fn', {})
  for (dk, _, sg), e in list(cache.items()):
    if dk == key[0] and sg == sign and _order_iso(d, f, fns[(dk, _, sg)]):
      cache[key], fns[key] = e, f
      return e
  if c.data.get('no_ties'):
    for (dk, _, sg), e in list(cache.items()):
      if dk == key[0] and sg == -sign and _order_iso(d, lambda i: -lift(f(i)), fns[(dk, _, sg)]):
        cache[key], fns[key] = e, f
        return e
  fns[key] = f
  e = (0, tuple(c.fresh(f'arg{"min" if sign > 0 else "max"}', I).t for _ in d.branches[0][0]))
  c.fact(z3.Implies(d.card() >= 1, d.mem(e)))
  ev = num_t(f(e))
  q = d.forall(lambda i: SV(ev <= num_t(f(i)) if sign > 0 else ev >= num_t(f(i))))
  c.axiom(q)
  cache[key] = e
  return e


def argmin(a, axis=None):
  a = as_arr(a)
  if a.ndim != 1:
    raise Unsupported('argmin axis')
  return PosSV(a.dims[0], _extreme(a.dims[0], lambda i: a.fn(i), 1))


def argmax(a, axis=None):
  a = as_arr(a)
  if a.ndim != 1:
    raise Unsupported('argmax axis')
  return PosSV(a.dims[0], _extreme(a.dims[0], lambda i: a.fn(i), -1))


def _smin(d, f, sign=1):
  if isinstance(d, int):
    r = f(0)
    for k in range(1, d):
      v = f(k)
      r = core.sym_min(r, v) if sign > 0 else core.sym_max(r, v)
    return r
  return f(_extreme(d, f, sign))


def min_(a, axis=None, **k):
  return reduce_axis(a, axis, _smin)


def max_(a, axis=None, **k):
  return reduce_axis(a, axis, lambda d, f: _smin(d, f, -1))


# -- sorting ------------------------------------------------------------------
def _order_iso(d, f, f0):
  """do f and f0 order the elements of d in the same way (for all pairs)?"""
  c = ctx()
  k = len(d.branches[0][0])
  pa = tuple(z3.Int(f'iso_a{j}') for j in range(k))
  pb = tuple(z3.Int(f'iso_b{j}') for j in range(k))
  memo = c.data.setdefault('iso', {})
  key = (d.key(), num_t(peek(d, f)).sexpr(), num_t(peek(d, f0)).sexpr())
  if key in memo:
    return memo[key]
  with c.bound(list(pa) + list(pb), z3.BoolVal(True)):
    lits = [d.mem((0, pa)), d.mem((0, pb)),
            (num_t(f((0, pa))) < num_t(f((0, pb)))) != (num_t(f0((0, pa))) < num_t(f0((0, pb))))]
  r = c.prover.quick_unsat(c, lits, rlimit=60_000) or (
      c.prover._nlsat(prover_relevant(c, lits[:-1], lits[-1]), simp(z3.Not(lits[-1]))) == z3.unsat)
  memo[key] = r
  return r


def _rank_fn(d, f, tag=''):
  """a ranking of the elements of d consistent with the values (some tie order)."""
  c = ctx()
  cache = c.data.setdefault('rank', {})
  key = (d.key(), num_t(peek(d, f)).sexpr(), tag)
  if key in cache:
    return cache[key]
  if len(d.branches) != 1:
    raise Unsupported('sorting a union domain')
  k = len(d.branches[0][0])
  # argsort depends on the order relation only: reuse the permutation of an
  # order-isomorphic key on the same domain
  for (dk, _, tg), hit in list(cache.items()):
    if dk == d.key() and tg == tag and _order_iso(d, f, hit[2]):
      cache[key] = hit
      return hit
  if c.data.get('no_ties'):
    # with distinct values the opposite order has the reversed permutation
    for (dk, _, tg), hit in list(cache.items()):
      if dk == d.key() and tg == tag and _order_iso(d, lambda i: -lift(f(i)), hit[2]):
        n_, r0 = d.card(), hit[0]
        cache[key] = (lambda *v: n_ - 1 - r0(*v), hit[1] + '~', f)
        return cache[key]
  nm = f'rank{len(cache)}'
  rk = z3.Function(nm, *([I] * k), I)
  n = d.card()
  va = [z3.Int(f'a{j}') for j in range(k)]
  vb = [z3.Int(f'b{j}') for j in range(k)]
  A, Bx = (0, tuple(va)), (0, tuple(vb))
  fa, fb = num_t(f(A)), num_t(f(Bx))
  ra, rb = rk(*va), rk(*vb)
  memA, memB = d.mem(A), d.mem(Bx)
  c.axiom(z3.ForAll(va, z3.Implies(memA, z3.And(ra >= 0, ra < n)), patterns=[ra]))
  c.axiom(z3.ForAll(va + vb, z3.Implies(z3.And(memA, memB, fa < fb), ra < rb), patterns=[z3.MultiPattern(ra, rb)]))
  diff = z3.Or(*[x != y for x, y in zip(va, vb)])
  c.axiom(z3.ForAll(va + vb, z3.Implies(z3.And(memA, memB, diff), ra != rb), patterns=[z3.MultiPattern(ra, rb)]))
  cache[key] = (rk, nm, f)
  return cache[key]


def prover_relevant(c, lits, goal):
  from . import prover
  return prover.relevant(list(c.pc), [goal]) + list(lits)


def perm_dom(d, f, tag=''):
  rk, nm, _ = _rank_fn(d, f, tag)
  out = Dom(d.branches, posfn=lambda idx: rk(*idx[1]), order=('perm', nm), card=d.card(), name=d.name)
  out.meta['sorted_by'] = f
  return out


def argsort(a, axis=-1, kind=None, **k):
  a = as_arr(a)
  if a.ndim != 1 or isinstance(a.dims[0], int):
    raise Unsupported('argsort of this array')
  d = a.dims[0]
  p = perm_dom(d, lambda i: a.fn(i))
  return Arr((p,), lambda i: PosSV(d, i), 'int')


def sort(a, axis=-1, **k):
  if is_pd(a):
    a = a._arr()
  a = as_arr(a)
  if a.ndim != 1 or isinstance(a.dims[0], int):
    raise Unsupported('sort of this array')
  d = a.dims[0]
  v = peek(d, a.fn)
  if isinstance(v, PosSV) and v.idx[1] == _probe(d)[1]:
    # positions of the elements of v.dom, sorted: natural order of v.dom
    return Arr((Dom(d.branches, posfn=None, order=v.dom.order, card=d.card(), name=d.name),),
               lambda i: a.fn(i), 'int')
  if isinstance(v, SV) and len(_probe(d)[1]) == 1 and v.t.eq(_probe(d)[1][0]):
    return Arr((Dom(d.branches, posfn=None, order='nat', card=d.card(), name=d.name),), lambda i: a.fn(i), 'int')
  p = perm_dom(d, lambda i: a.fn(i))
  g = a.cell.fn
  return Arr((p,), lambda i: g(i))


# -- indexing -------------------------------------------------------------------
def _slice_dom(d, s):
  """apply a python slice to a symbolic dimension."""
  c = ctx()
  n = d.card()
  step = 1 if s.step is None else s.step
  if isinstance(step, SV):
    raise Unsupported('symbolic slice step')
  if step == -1 and s.start is None and s.stop is None:
    if d.posfn is None:
      return Dom(d.branches, None, ('rev', d.order), d._card, name=d.name)
    return Dom(d.branches, posfn=lambda i: n - 1 - d.posfn(i), order=('rev', d.order), card=n, name=d.name)
  if step != 1:
    raise Unsupported('slice step')

  def norm(v, dflt):
    if v is None:
      return dflt
    t = as_t(v)
    if t.sort() != I:
      raise TypeError('slice indices must be integers')
    neg = c.fork(t < 0)
    if neg:
      t = simp(n + t)
      k = c.known(t < 0)
      return t if k is False else z3.IntVal(0) if k else simp(z3.If(t < 0, z3.IntVal(0), t))
    k = c.known(t > n)
    return t if k is False else n if k else simp(z3.If(t > n, n, t))
  lo = norm(s.start, z3.IntVal(0))
  hi = norm(s.stop, n)
  if d.posfn is None:
    if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(n):
      return d
    raise Unsupported('slicing a filtered array by position')
  if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(n):
    return d
  kn = c.known(hi >= lo)
  card = simp(hi - lo) if kn else z3.IntVal(0) if kn is False else simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
  pf = d.posfn
  lo0, hin = z3.is_int_value(lo) and lo.as_long() == 0, hi.eq(n)
  res = d.filter(lambda i: SV(z3.And(*([] if lo0 else [pf(i) >= lo]), *([] if hin else [pf(i) < hi]))), card=card)
  res.posfn = lambda i: pf(i) - lo
  # register the cardinality for other routes to the same set
  roots, pred = res.branches[0]
  if len(res.branches) == 1:
    vs = [r.var(len(c.binders) * 4 + j) for j, r in enumerate(roots)]
    with c.bound(vs, z3.And(*[r.mem(v) for r, v in zip(roots, vs)])):
      p = simp(pred(*vs))
    t = c.sums.card(list(roots), vs, p)
    c.fact(t == card)
  return res


def getitem(a, key):
  if not isinstance(key, tuple):
    key = (key,)
  f = a.cell.fn
  # expand ellipsis
  nidx = len([k for k in key if k is not None and k is not Ellipsis])
  if any(k is Ellipsis for k in key):
    p = [i for i, k in enumerate(key) if k is Ellipsis][0]
    key = key[:p] + (slice(None),) * (a.ndim - nidx) + key[p + 1:]
  else:
    key = key + (slice(None),) * (a.ndim - nidx)
  out_dims = []
  plan = []     # per source axis: fn(out_idx)->idx
  ax = 0
  pos = 0
  for k in key:
    if k is None:
      out_dims.append(1)
      pos += 1
      continue
    d = a.dims[ax]
    k = as_arr(k) if (is_pd(k) or isinstance(k, list)) else k
    if isinstance(k, slice):
      if isinstance(d, int):
        rng = range(d)[_cslice(k)]
        out_dims.append(len(rng))
        plan.append(lambda o, pos=pos, rng=rng: rng[o[pos]])
      else:
        nd = _slice_dom(d, k)
        out_dims.append(nd)
        plan.append(lambda o, pos=pos: o[pos])
      pos += 1
    elif isinstance(k, Arr):
      if k.ndim == 0:
        k = k.fn()
        raise Unsupported('0-d index')
      if k.ndim != 1:
        raise Unsupported('multi-dimensional fancy index')
      kd = k.dims[0]
      if isinstance(kd, int):
        if isinstance(d, int):
          vals = [k.fn(j) for j in range(kd)]
          if all(isinstance(v, (bool, _np.bool_)) for v in vals):
            sel = [j for j, v in enumerate(vals) if v]
          else:
            sel = [int(v) for v in vals]
          out_dims.append(len(sel))
          plan.append(lambda o, pos=pos, sel=sel: sel[o[pos]])
          pos += 1
          ax += 1
          continue
        raise Unsupported('concrete fancy index into a symbolic axis')
      probe = peek(kd, k.fn)
      isbool = isinstance(probe, (bool, _np.bool_)) or (isinstance(probe, SV) and probe.t.sort() == B)
      if isbool:
        if isinstance(d, int):
          raise Unsupported('symbolic mask on concrete axis')
        # align mask with d
        dd, ma, mb = bdims(d, kd)
        if dd is not d and not dd.same(d):
          raise Unsupported('mask on a different domain')
        kf = k.cell.fn
        nd = d.filter(lambda i, kf=kf, mb=mb: kf(mb(i)))
        out_dims.append(nd)
        plan.append(lambda o, pos=pos: o[pos])
      else:
        if isinstance(d, int):
          raise Unsupported('symbolic fancy index on concrete axis')
        kf = k.cell.fn
        if isinstance(probe, PosSV):
          if not probe.dom.same(d):
            if not (probe.dom.full and d.full):
              raise Unsupported('fancy index from another array')
          plan.append(lambda o, pos=pos, kf=kf: kf(o[pos]).idx)
        elif d.full:
          c = ctx()
          c.defined(kd.forall(lambda i: SV(z3.And(as_t(kf(i)) >= 0, as_t(kf(i)) < d.card()))),
                    'fancy index in bounds')
          plan.append(lambda o, pos=pos, kf=kf: (0, (as_t(kf(o[pos])),)))
        else:
          raise Unsupported('fancy index into a filtered array')
        out_dims.append(kd)
      pos += 1
    else:
      if isinstance(d, int):
        kk = int(k)
        if kk >= d or kk < -d:
          raise IndexError('index out of bounds')
        plan.append(lambda o, kk=kk % d: kk)
      elif isinstance(k, PosSV) and k.dom.same(d):
        plan.append(lambda o, k=k: k.idx)
      elif isinstance(k, PosSV) and d.full and k.dom.full:
        plan.append(lambda o, k=k: k.idx)
      else:
        e = d.at(k)
        plan.append(lambda o, e=e: e)
    ax += 1
  if not out_dims:
    return f(*[p(()) for p in plan])
  return Arr(out_dims, lambda *o: f(*[p(o) for p in plan]), a._dtype)


def _cslice(s):
  g = lambda v: None if v is None else int(v)
  return slice(g(s.start), g(s.stop), g(s.step))


def setitem(a, key, val):
  f = a.cell.fn
  if isinstance(key, slice) and key == slice(None):
    v = as_arr(val)
    dims, fns = broadcast(Arr(a.dims, f), v)
    _write(a, fns[1])
    return
  key = as_arr(key) if (is_pd(key) or isinstance(key, list)) else key
  if a.ndim == 1 and isinstance(key, Arr) and key.ndim == 1 and is_dom(a.dims[0]) and is_dom(key.dims[0]):
    d = a.dims[0]
    kf0 = key.cell.fn
    probe = peek(key.dims[0], kf0)
    if not (isinstance(probe, bool) or (isinstance(probe, SV) and probe.t.sort() == B)):
      raise Unsupported('fancy assignment')
    dd, ma, mb = bdims(d, key.dims[0])
    if dd is not d and not dd.same(d):
      raise Unsupported('mask on a different domain')
    kf = lambda i: kf0(mb(i))
    v = as_arr(val)
    if v.ndim == 0:
      x = v.fn()
      _write(a, lambda i: sym_ite(kf(i), x, f(i)))
      return
    vd = v.dims[0]
    if isinstance(vd, int):
      raise Unsupported('mask assignment of a concrete array')
    want = d.filter(kf)
    if not _dom_equal(vd, want):
      c = ctx()
      if not c.fork(vd.card() == want.card()):
        raise ValueError('cannot assign input values to the output values where the mask is true')
      raise Unsupported('mask assignment from a differently indexed array')
    vf = v.cell.fn
    _write(a, lambda i: sym_ite(kf(i), vf(i), f(i)))
    return
  if all(isinstance(d, int) for d in a.dims):
    ks = key if isinstance(key, tuple) else (key,)
    if all(isinstance(k, int) for k in ks) and len(ks) == a.ndim:
      ks = tuple(k % d for k, d in zip(ks, a.dims))
      _write(a, lambda *ix: val if tuple(ix) == ks else f(*ix))
      return
  raise Unsupported('array assignment of this form')


def _dom_equal(a, b):
  """same elements, same order."""
  if a.same(b):
    return True
  if len(a.branches) != len(b.branches) or a.order != b.order:
    return False
  c = ctx()
  for (ra, pa), (rb, pb) in zip(a.branches, b.branches):
    if [r.name for r in ra] != [r.name for r in rb]:
      return False
    vs = [z3.Int(f'de_{j}') for j in range(len(ra))]
    if not c.prover.quick_unsat(c, [r.mem(v) for r, v in zip(ra, vs)] + [pa(*vs) != pb(*vs)], strong=True):
      return False
  return True


# -- linear algebra ---------------------------------------------------------------
def _contract(d, f):
  return _ssum(d, f)


def matmul(a, b):
  a, b = as_arr(a), as_arr(b)
  da, db = a.dims[-1], (b.dims[-2] if b.ndim > 1 else b.dims[0])
  if isinstance(da, int) != isinstance(db, int):
    raise Unsupported('matmul dims')
  if isinstance(da, int):
    if da != db:
      raise ValueError('matmul dimension mismatch')
    ma = mb = lambda i: i
    dd = da
  else:
    dd, ma, mb = bdims(da, db)
  fa, fb = a.cell.fn, b.cell.fn
  if a.ndim == 1 and b.ndim == 1:
    return _contract(dd, lambda k: sbin('*', fa(ma(k)), fb(mb(k))))
  if a.ndim == 2 and b.ndim == 2:
    return Arr((a.dims[0], b.dims[1]),
               lambda i, j: _contract(dd, lambda k: sbin('*', fa(i, ma(k)), fb(mb(k), j))))
  if a.ndim == 1 and b.ndim == 2:
    return Arr((b.dims[1],), lambda j: _contract(dd, lambda k: sbin('*', fa(ma(k)), fb(mb(k), j))))
  if a.ndim == 2 and b.ndim == 1:
    return Arr((a.dims[0],), lambda i: _contract(dd, lambda k: sbin('*', fa(i, ma(k)), fb(mb(k)))))
  raise Unsupported('matmul rank')


def dot(a, b):
  return matmul(a, b)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
  if kw or not rowvar:
    raise Unsupported('np.cov options')
  m = as_arr(m)
  if y is not None:
    m = stack([m, as_arr(y)])
  if ddof is None:
    ddof = 0 if bias else 1
  one = m.ndim == 1
  if one:
    m = Arr((1,) + m.dims, lambda i, k: as_arr(m0).fn(k)) if False else stack([m])
  d = m.dims[1]
  f = m.cell.fn
  k = m.dims[0]
  mu = [_smean(d, lambda i, r=r: f(r, i)) for r in range(k)]
  memo = {}

  def g(i, j):
    a, b = min(i, j), max(i, j)
    if (a, b) not in memo:
      memo[(a, b)] = sbin('/', _ssum(d, lambda t: sbin('*', sbin('-', f(a, t), mu[a]), sbin('-', f(b, t), mu[b]))),
                          sbin('-', _slen(d), ddof))
    return memo[(a, b)]
  if one:
    return g(0, 0)
  return Arr((k, k), g)


def corrcoef(x, y=None):
  c = cov(x, y)
  f = c.cell.fn
  return Arr(c.dims, lambda i, j: sbin('/', f(i, j), sym_sqrt(sbin('*', f(i, i), f(j, j)))))


# -- constructors -----------------------------------------------------------------
def array(x, dtype=None, **k):
  if isinstance(x, Arr):
    r = x.copy()
    return r if dtype is None else r.astype(dtype)
  if is_pd(x):
    return x._arr().copy()
  if isinstance(x, (list, tuple)):
    if len(x) and all(isinstance(e, (Arr, list, tuple)) or is_pd(e) for e in x):
      return stack([as_arr(e) for e in x])
    xs = list(x)
    r = Arr((len(xs),), lambda i: xs[i])
    return r if dtype is None else r.astype(dtype)
  if hasattr(x, '_sym_array'):
    return x._sym_array()
  return as_arr(x)


def asarray(x, dtype=None, **k):
  if isinstance(x, Arr) and dtype is None:
    return x
  return array(x, dtype)


def atleast_2d(x):
  x = as_arr(x)
  if x.ndim == 0:
    return Arr((1, 1), lambda i, j: x.fn())
  if x.ndim == 1:
    return Arr((1,) + x.dims, lambda i, j: x.fn(j), x._dtype)
  return x


def atleast_1d(x):
  x = as_arr(x)
  if x.ndim == 0:
    return Arr((1,), lambda i: x.fn())
  return x


def stack(arrs, axis=0):
  arrs = [as_arr(a) for a in arrs]
  if not arrs:
    raise ValueError('need at least one array to stack')
  nd = arrs[0].ndim
  for a in arrs:
    if a.ndim != nd:
      raise ValueError('all input arrays must have the same shape')
  if nd == 0:
    vals = [a.fn() for a in arrs]
    return Arr((len(arrs),), lambda i: vals[i])
  dims = list(arrs[0].dims)
  maps = [[(lambda i: i)] * nd for _ in arrs]
  for k in range(1, len(arrs)):
    for d in range(nd):
      x, ma, mb = bdims(dims[d], arrs[k].dims[d])
      if isinstance(dims[d], int) and isinstance(arrs[k].dims[d], int) and dims[d] != arrs[k].dims[d]:
        raise ValueError('all input arrays must have the same shape')
      if x is not dims[d]:
        for j in range(k):
          old = maps[j][d]
          maps[j] = list(maps[j])
          maps[j][d] = (lambda i, old=old, ma=ma: old(ma(i)))
        dims[d] = x
      maps[k] = list(maps[k])
      maps[k][d] = mb
  fns = [a.cell.fn for a in arrs]
  if axis in (0,):
    return Arr((len(arrs),) + tuple(dims), lambda s, *ix: fns[s](*[m(i) for m, i in zip(maps[s], ix)]))
  if axis in (-1, nd):
    return Arr(tuple(dims) + (len(arrs),), lambda *ix: fns[ix[-1]](*[m(i) for m, i in zip(maps[ix[-1]], ix[:-1])]))
  raise Unsupported('stack axis')


def vstack(arrs):
  arrs = [as_arr(a) for a in arrs]
  if all(a.ndim == 1 for a in arrs):
    return stack(arrs, 0)
  raise Unsupported('vstack')


def column_stack(arrs):
  return stack(arrs, -1)


def concatenate(arrs, axis=0):
  arrs = [as_arr(a) for a in arrs]
  if all(a.ndim == 1 and isinstance(a.dims[0], int) for a in arrs):
    xs = [a.fn(k) for a in arrs for k in range(a.dims[0])]
    return Arr((len(xs),), lambda i: xs[i])
  raise Unsupported('concatenate of symbolic arrays')


def append(a, b, axis=None):
  return concatenate([a, b])


def arange(*a, **k):
  args = [conc(x) for x in a]
  if k:
    raise Unsupported('arange options')
  if len(args) == 1 and isinstance(args[0], SV):
    n = args[0]
    c = ctx()
    c.defined(as_t(n) >= 0, 'arange of a negative length')
    d = Dom.upto(as_t(n), 'arange')
    return Arr((d,), lambda i: SV(i[1][0]), 'int')
  if len(args) == 2 and any(isinstance(x, SV) for x in args):
    # start, start + 1, ...
    lo, n = args[0], lift(args[1]) - args[0]
    if not n.isint:
      raise Unsupported('arange of reals')
    n = SV(z3.simplify(as_t(n), som=True))
    return emap(lambda x: x + lo, arange(n))
  if any(isinstance(x, SV) for x in args):
    raise Unsupported('symbolic arange bounds')
  xs = [conc(x) for x in _np.arange(*args)]
  return Arr((len(xs),), lambda i: xs[i])


def _shape(shape):
  if isinstance(shape, (int, SV)):
    shape = (shape,)
  return [s if isinstance(s, int) else Dom.upto(as_t(s), 'alloc') for s in shape]


def full(shape, v, dtype=None):
  return Arr(_shape(shape), lambda *ix: v)


def zeros(shape, dtype=None):
  return full(shape, 0.0 if dtype is None or dtype_name(dtype) == 'float' else 0)


def ones(shape, dtype=None):
  return full(shape, 1.0 if dtype is None or dtype_name(dtype) == 'float' else 1)


def _uninit(dims):
  c = ctx()
  k = c.fresh_n.get('uninit', 0)
  c.fresh_n['uninit'] = k + 1

  def fn(*ix):
    args = []
    for i in ix:
      args.extend([z3.IntVal(i)] if isinstance(i, int) else list(i[1]))
    if not args:
      return SV(z3.Real(f'uninit{k}'))
    return SV(z3.Function(f'uninit{k}', *([I] * len(args)), R)(*args))
  return Arr(dims, fn)


def empty(shape, dtype=None):
  return _uninit(_shape(shape))


def zeros_like(a, dtype=None):
  a = as_arr(a)
  return Arr(a.dims, lambda *ix: 0.0)


def ones_like(a, dtype=None):
  a = as_arr(a)
  return Arr(a.dims, lambda *ix: 1.0)


def full_like(a, v, dtype=None):
  a = as_arr(a)
  return Arr(a.dims, lambda *ix: v)


def empty_like(a, dtype=None):
  return _uninit(as_arr(a).dims)


def copy(a):
  return as_arr(a).copy()


def reshape(a, shape, **k):
  a = as_arr(a)
  shape = (shape,) if isinstance(shape, int) else tuple(shape)
  if shape == (-1, 1) and a.ndim <= 1:
    if a.ndim == 0:
      return Arr((1, 1), lambda i, j: a.fn())
    return Arr(a.dims + (1,), lambda i, j: a.fn(i))
  if shape == (1, -1) and a.ndim <= 1:
    if a.ndim == 0:
      return Arr((1, 1), lambda i, j: a.fn())
    return Arr((1,) + a.dims, lambda i, j: a.fn(j))
  if shape == (-1,):
    return _flatten(a)
  if all(isinstance(d, int) for d in a.dims):
    flat = _flat_list(a)
    import numpy as np
    idx = np.arange(len(flat)).reshape([int(s) for s in shape])
    return Arr(idx.shape, lambda *ix: flat[int(idx[ix])])
  raise Unsupported('reshape')


def _flat_list(a):
  out = []

  def rec(k, ix):
    if k == a.ndim:
      out.append(a.fn(*ix))
      return
    for j in range(a.dims[k]):
      rec(k + 1, ix + (j,))
  rec(0, ())
  return out


def _flatten(a):
  if a.ndim == 1:
    return a.copy()
  if all(isinstance(d, int) for d in a.dims):
    xs = _flat_list(a)
    return Arr((len(xs),), lambda i: xs[i])
  if a.ndim == 2 and all(is_dom(d) for d in a.dims) and all(len(d.branches) == 1 for d in a.dims):
    d0, d1 = a.dims
    (r0, p0), (r1, p1) = d0.branches[0], d1.branches[0]
    k = len(r0)
    pf = None
    if d0.posfn and d1.posfn:
      n1 = d1.card()
      pf = lambda i: d0.posfn((0, i[1][:k])) * n1 + d1.posfn((0, i[1][k:]))
    d = Dom([(r0 + r1, lambda *vs: z3.And(p0(*vs[:k]), p1(*vs[k:])))], posfn=pf,
            order=('prod', d0.order, d1.order), name='flat')
    f = a.cell.fn
    return Arr((d,), lambda i: f((0, i[1][:k]), (0, i[1][k:])), a._dtype)
  if a.ndim == 2 and a.dims[0] == 1:
    return Arr(a.dims[1:], lambda i: a.fn(0, i))
  raise Unsupported('flatten')


ravel = _flatten


def diag(a):
  a = as_arr(a)
  if a.ndim == 2:
    return Arr((a.dims[0],), lambda i: a.fn(i, i))
  raise Unsupported('diag')


def diagonal(a):
  return diag(a)


def transpose(a):
  return as_arr(a).T


def squeeze(a, axis=None):
  a = as_arr(a)
  keep = [k for k, d in enumerate(a.dims) if d != 1]
  f = a.cell.fn
  def g(*ix):
    full_ = [0] * a.ndim
    for k, i in zip(keep, ix):
      full_[k] = i
    return f(*full_)
  return _unwrap(Arr([a.dims[k] for k in keep], g))


def meshgrid(x, y):
  x, y = as_arr(x), as_arr(y)
  dx, dy = x.dims[0], y.dims[0]
  return (Arr((dy, dx), lambda i, j: x.fn(j)), Arr((dy, dx), lambda i, j: y.fn(i)))


def cumsum(a, axis=None):
  a = as_arr(a)
  if a.ndim != 1 or isinstance(a.dims[0], int):
    raise Unsupported('cumsum')
  d = a.dims[0]
  if d.posfn is None:
    raise Unsupported('cumsum of an array with unknown order')
  f = a.cell.fn
  pf = d.posfn
  return Arr((d,), lambda i: SV(d.filter(lambda j: SV(pf(j) <= pf(i))).sum(lambda j: f(j))))


# -- elementwise functions --------------------------------------------------------
def sqrt(x):
  return emap(sym_sqrt, x)


def square(x):
  return emap(lambda v: sbin('*', v, v), x)


def power(x, y):
  return enary(lambda a, b: core.arith('**', lift(a), b), x, y)


def abs_(x):
  return emap(sym_abs, x)


def floor(x):
  return emap(sym_floor, x)


def ceil(x):
  return emap(core.sym_ceil, x)


def _log(x):
  x = lift(x)
  t = to_real(num_t(x))
  ctx().defined(t > 0, 'log of a non-positive number')
  y = core._LOG(t)
  ctx().fact(z3.And(z3.Implies(t > 1, y > 0), z3.Implies(t < 1, y < 0), z3.Implies(t == 1, y == 0)))
  return SV(y)


def log(x):
  return emap(_log, x)


def _isclose(a, b, rtol=1e-5, atol=1e-8):
  a, b = conc(a), conc(b)
  if is_inf(a) or is_inf(b) or is_nan(a) or is_nan(b):
    return (a == b) if not (is_nan(a) or is_nan(b)) else False
  if not isinstance(a, SV) and not isinstance(b, SV):
    return bool(_np.isclose(a, b, rtol, atol))
  d = sym_abs(sbin('-', a, b))
  return core.compare('<=', d, sbin('+', atol, sbin('*', rtol, sym_abs(b))))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
  return enary(lambda x, y: _isclose(x, y, rtol, atol), a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8):
  return all_(isclose(a, b, rtol, atol))


NONFINITE = None


def _isfinite(x):
  x = conc(x)
  if not isinstance(x, SV):
    if x is None or isinstance(x, str):
      raise TypeError("ufunc 'isfinite' not supported for the input types")
    return not (is_inf(x) or is_nan(x))
  if x.kind == 'obj':
    raise TypeError("ufunc 'isfinite' not supported for the input types")
  g = FINITE_OF.get(ctx(), x)
  r = z3.BoolVal(True)
  if g is not None:
    r = g
  if x.null is not None:
    r = z3.And(r, z3.Not(x.null))
  return SV(simp(r))


class _Finite:
  """columns may carry an extra 'is infinite' predicate: name of value fn -> pred fn"""

  def get(self, c, x):
    reg = c.data.get('inf_of', {})
    t = x.t
    if z3.is_app(t):
      p = reg.get(t.decl().name())
      if p is not None:
        return z3.Not(p(*t.children()))
    return None


FINITE_OF = _Finite()


def isfinite(x):
  return emap(_isfinite, x)


def _isnan(x):
  x = conc(x)
  if not isinstance(x, SV):
    return is_nan(x)
  return SV(x.null if x.null is not None else z3.BoolVal(False))


def isnan(x):
  return emap(_isnan, x)


def isinf(x):
  return emap(lambda v: is_inf(conc(v)) if not isinstance(v, SV) else ~lift(_isfinite(v)) & ~lift(_isnan(v)), x)


def clip(a, a_min=None, a_max=None, **k):
  def f(x):
    x = conc(x)
    if a_min is not None:
      x = _maxs(x, a_min)
    if a_max is not None:
      x = _mins(x, a_max)
    return x
  if isinstance(a_min, Arr) or isinstance(a_max, Arr):
    raise Unsupported('array clip bounds')
  return emap(f, a)


def _maxs(a, b):
  a, b = conc(a), conc(b)
  if is_inf(a) or is_inf(b):
    c = core.compare('>=', a, b)
    return a if (c if isinstance(c, bool) else bool(c)) else b
  return sym_ite(core.compare('>=', a, b), a, b)


def _mins(a, b):
  a, b = conc(a), conc(b)
  if is_inf(a) or is_inf(b):
    c = core.compare('<=', a, b)
    return a if (c if isinstance(c, bool) else bool(c)) else b
  return sym_ite(core.compare('<=', a, b), a, b)


def maximum(a, b):
  return enary(_maxs, a, b)


def minimum(a, b):
  return enary(_mins, a, b)


def where(c, a=None, b=None):
  if a is None:
    raise Unsupported('where with one argument')
  return enary(lambda x, y, z: sym_ite(as_t(x, B), y, z), c, a, b)


def logical_and(a, b):
  return enary(lambda x, y: core.boolop('&', x, y), a, b)


def logical_or(a, b):
  return enary(lambda x, y: core.boolop('|', x, y), a, b)


def logical_not(a):
  return emap(lambda x: SV(simp(z3.Not(as_t(x, B)))), a)


def add(a, b):
  return enary(lambda x, y: sbin('+', x, y), a, b)


def subtract(a, b):
  return enary(lambda x, y: sbin('-', x, y), a, b)


def multiply(a, b):
  return enary(lambda x, y: sbin('*', x, y), a, b)


def divide(a, b):
  return enary(lambda x, y: sbin('/', x, y), a, b)


def array_equal(a, b):
  a, b = as_arr(a), as_arr(b)
  if a.ndim != b.ndim:
    return False
  c = ctx()
  for x, y in zip(a.dims, b.dims):
    nx, ny = as_t(_slen(x)), as_t(_slen(y))
    if not c.fork(nx == ny):
      return False
  return all_(ebin('==', a, b))


def isscalar(x):
  return isinstance(x, (SV, int, float, str))


def median(a, *x, **k):
  raise Unsupported('np.median')


def unique(a, *x, **k):
  raise Unsupported('np.unique')


def quantile(a, *x, **k):
  raise Unsupported('np.quantile')


percentile = quantile


# --------------------------------------------------------------------------
def flip(a, axis=None):
  a = as_arr(a)
  if a.ndim != 1 or axis not in (None, 0, -1):
    raise Unsupported('flip')
  return a[::-1]


def count_nonzero(a, axis=None):
  a = as_arr(a)
  return sum_(emap(lambda x: x if isinstance(x, bool) or (isinstance(x, SV) and x.kind == 'bool') else x != 0, a), axis=axis)


def negative(x):
  return emap(lambda v: -v, x)


def hstack(xs):
  xs = [as_arr(x) for x in xs]
  if any(x.ndim != 1 for x in xs):
    raise Unsupported('hstack')
  return concatenate(xs)


def average(a, axis=None, weights=None):
  if weights is not None:
    raise Unsupported('weighted average')
  return mean(a, axis=axis)


def outer(a, b):
  return matmul(reshape(as_arr(a), (-1, 1)), reshape(as_arr(b), (1, -1)))


def inner(a, b):
  a, b = as_arr(a), as_arr(b)
  if a.ndim != 1 or b.ndim != 1:
    raise Unsupported('inner')
  return dot(a, b)


def log1p(x):
  return log(1 + x)


def _cmp(op):
  return lambda a, b: enary(lambda x, y: sbin(op, x, y), a, b)


equal, not_equal, less, less_equal, greater, greater_equal = (_cmp(o) for o in ('==', '!=', '<', '<=', '>', '>='))


def make_module(pdstub=None):
  m = types.ModuleType('numpy')
  g = globals()
  names = ['inf', 'nan', 'argmin', 'argmax', 'argsort', 'sort', 'cov', 'corrcoef', 'array', 'asarray', 'atleast_2d',
           'atleast_1d', 'stack', 'vstack', 'column_stack', 'concatenate', 'append', 'arange', 'full', 'zeros', 'ones',
           'empty', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'copy', 'reshape', 'ravel', 'diag',
           'diagonal', 'transpose', 'squeeze', 'meshgrid', 'cumsum', 'sqrt', 'square', 'power', 'floor', 'ceil', 'log',
           'isclose', 'allclose', 'isfinite', 'isnan', 'isinf', 'clip', 'maximum', 'minimum', 'where', 'logical_and',
           'logical_or', 'logical_not', 'add', 'subtract', 'multiply', 'divide', 'array_equal', 'isscalar', 'median',
           'unique', 'quantile', 'percentile', 'mean', 'var', 'std', 'dot', 'matmul',
           'flip', 'count_nonzero', 'negative', 'hstack', 'average', 'outer', 'inner', 'log1p', 'equal', 'not_equal',
           'less', 'less_equal', 'greater', 'greater_equal']
  for n in names:
    setattr(m, n, g[n])
  m.sum = sum_
  m.any = any_
  m.all = all_
  m.min = m.amin = min_
  m.max = m.amax = max_
  m.abs = m.absolute = abs_
  m.row_stack, m.true_divide, m.invert = vstack, divide, logical_not
  m.bitwise_and, m.bitwise_or = logical_and, logical_or
  m.newaxis = None
  m.ndarray = Arr
  m.float64 = m.float32 = float
  m.int64 = m.int32 = int
  m.bool_ = bool
  m.number = SV
  m.floating = float
  m.integer = int
  m.pi = _np.pi
  m.dtype = lambda x: DType(dtype_name(x))
  m.errstate = lambda **k: __import__('contextlib').nullcontext()
  rnd = types.ModuleType('numpy.random')

  class Generator:
    pass

  class RandomState:
    pass
  rnd.Generator = Generator
  rnd.RandomState = RandomState

  def default_rng(seed=None):
    c = ctx()
    c.events.append(('ambient_random', seed))
    return AmbientRng()
  rnd.default_rng = default_rng
  rnd.seed = lambda *a: None
  m.random = rnd
  ty = types.ModuleType('numpy.typing')
  import typing
  ty.ArrayLike = typing.Any
  ty.NDArray = typing.Any
  m.typing = ty

  def _missing(name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise Unsupported(f'numpy.{name}')
  m.__getattr__ = _missing
  return m


class AmbientRng:

  def bytes(self, n):
    c = ctx()
    b = c.fresh('random_bytes', I, 'obj')
    if isinstance(n, int) and n > 0:
      # the hexadecimal text of at least one byte is not empty
      for t in (b.t, core.TOSTR(b.t)):
        c.fact(z3.And(t != core.code_of(''), t != core.code_of(None)))
    return _RndBytes(b)

  def __getattr__(self, n):
    raise Unsupported(f'rng.{n}')


class _RndBytes:

  def __init__(self, s):
    self.s = s

  def hex(self):
    return self.s
