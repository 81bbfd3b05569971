"""Symbolic contracts for the pandas operations used by feedx.

A frame is an ordered index domain (`npstub.Dom`, unbounded symbolic length) and,
per column, a function from domain elements to scalars.  Row labels are the
identities of the domain elements, so label alignment is element identity inside
one label space (an operation that creates new labels creates a new space).
"""
from __future__ import annotations
import types
import z3
from . import core, npstub, loader
from .core import SV, R, I, B, Unsupported, ctx, lift, num_t, as_t, simp, sym_ite, conc, code_of
from .npstub import Arr, Dom

NONE = None


def isnull(x):
  """z3 Bool: the scalar is missing."""
  x = conc(x)
  if x is None or core.is_nan(x):
    return z3.BoolVal(True)
  if isinstance(x, SV):
    t = x.null if x.null is not None else z3.BoolVal(False)
    if x.kind == 'obj' and not (z3.is_app(x.t) and (x.t.decl().name() in ctx().data.get('nonnone', ()) or x.t.decl().eq(core.TOSTR))):
      t = z3.Or(t, x.t == code_of(None))
    return simp(t)
  return z3.BoolVal(False)


def key_eq(a, b):
  r = npstub.sbin('==', a, b)
  if isinstance(r, bool):
    return z3.BoolVal(r)
  return as_t(r, B)


def key_term(x):
  return as_t(conc(x) if not isinstance(x, SV) else x)


class Space:
  """a set of row labels."""
  n = 0

  def __init__(self, unique=True):
    Space.n += 1
    self.id = Space.n
    self.unique = unique


class Index:
  """row labels of a frame/series."""

  def __init__(self, dom, levels, names):
    self.dom, self.levels, self.names = dom, levels, list(names)

  _is_pd_index = True

  @property
  def name(self):
    return self.names[0]

  @property
  def values(self):
    return self._arr()

  def _arr(self):
    if len(self.levels) == 1:
      return Arr((self.dom,), self.levels[0])
    lv = self.levels
    return Arr((self.dom,), lambda i: tuple(f(i) for f in lv))

  def get_level_values(self, k):
    if isinstance(k, str):
      if k not in self.names:
        raise KeyError(k)
      k = self.names.index(k)
    return Arr((self.dom,), self.levels[k])

  def _len(self):
    return SV(self.dom.card())


class Columns:
  """column labels (concrete)."""
  _is_cols = True

  def __init__(self, labels, names=None):
    self.labels = list(labels)
    self.names = names

  def __iter__(self):
    return iter(self.labels)

  _flat = False

  def __contains__(self, x):
    if not self._flat and not isinstance(x, tuple) and self.labels and all(isinstance(l, tuple) for l in self.labels):
      return any(l[0] == x for l in self.labels)   # a first level label
    return x in self.labels

  def _len(self):
    return len(self.labels)

  def __len__(self):
    return len(self.labels)

  @property
  def values(self):
    r = Columns(self.labels, self.names)
    r._flat = True
    return r

  def tolist(self):
    return list(self.labels)

  def to_list(self):
    return list(self.labels)

  def get_level_values(self, k):
    return Columns([(x if isinstance(x, tuple) else (x, ''))[k] for x in self.labels])

  def unique(self):
    return Columns(list(dict.fromkeys(self.labels)))

  def __getitem__(self, k):
    return self.labels[k]

  def difference(self, o):
    o = list(o)
    return Columns(sorted(x for x in self.labels if x not in o))

  def isin(self, o):
    o = list(o)
    return [x in o for x in self.labels]

  @property
  def nlevels(self):
    return 2 if self.labels and isinstance(self.labels[0], tuple) else 1


def _align(a, b):
  """index map from a's domain into b's (same labels)."""
  if a.dom.same(b.dom) or a.dom.same_set(b.dom):
    return lambda i: i
  if a.space is b.space:
    return None
  raise Unsupported('alignment of differently labelled data')


def _series_bin(op, a, b):
  """label-aligned elementwise operation."""
  if isinstance(a, Series) and isinstance(b, Series):
    if a.space is not b.space:
      raise Unsupported('operation on differently labelled series')
    if not (a.dom.same(b.dom) or a.dom.same_set(b.dom)):
      # restricted labels: missing on one side -> null; only identical label sets supported
      raise Unsupported('operation on series with different label sets')
    fa, fb = a.fn, b.fn
    return a._like(lambda i: npstub.sbin(op, fa(i), fb(i)))
  s, o, flip = (a, b, False) if isinstance(a, Series) else (b, a, True)
  f = s.fn
  if isinstance(o, Arr) and o.ndim == 1:
    da, ma, mb = npstub.bdims(s.dom, o.dims[0])
    g = o.cell.fn
    of = lambda i: g(mb(i))
  else:
    x = npstub._unwrap(o)
    of = lambda i: x
  if flip:
    return s._like(lambda i: npstub.sbin(op, of(i), f(i)))
  return s._like(lambda i: npstub.sbin(op, f(i), of(i)))


class Series:
  _is_pd_stub = True
  __array_priority__ = 2e9
  __array_ufunc__ = None
  __hash__ = None

  def __init__(self, dom, fn, space=None, name=None, index=None, dtype=None):
    self.dom, self.fn, self.name = dom, fn, name
    self.space = space or Space()
    self._index = index
    self._dtype = dtype

  def _like(self, fn, name='_same', dom=None, dtype=None):
    return Series(dom or self.dom, fn, self.space, self.name if name == '_same' else name, self._index, dtype)

  def _arr(self):
    return Arr((self.dom,), self.fn, self._dtype)

  _sym_array = _arr

  def _map(self, f, dtype=None):
    g = self.fn
    return self._like(lambda i: f(g(i)), dtype=dtype)

  def _enary(self, f, args):
    fs = []
    for a in args:
      if isinstance(a, Series):
        if a.space is not self.space or not a.dom.same_set(self.dom):
          raise Unsupported('differently labelled series')
        fs.append(a.fn)
      elif isinstance(a, Arr) and a.ndim == 1:
        da, ma, mb = npstub.bdims(self.dom, a.dims[0])
        fs.append(lambda i, g=a.cell.fn, mb=mb: g(mb(i)))
      else:
        fs.append(lambda i, x=npstub._unwrap(a): x)
    return self._like(lambda i: f(*[g(i) for g in fs]))

  @property
  def values(self):
    return self._arr()

  def to_numpy(self, *a, **k):
    return self._arr()

  @property
  def array(self):
    return self._arr()

  def tolist(self):
    return loader.SymList(self._arr())

  @property
  def index(self):
    return self._index if self._index is not None else Index(self.dom, [lambda i: SV(i[1][0])], [None])

  @property
  def dtype(self):
    p = npstub.peek(self.dom, self.fn)
    if isinstance(p, SV):
      return npstub.DType({'date': 'date', 'td': 'td', 'obj': 'obj', 'bool': 'bool'}.get(p.kind) or ('int' if p.t.sort() == I else 'bool' if p.t.sort() == B else 'float'))
    return npstub.DType('obj' if isinstance(p, str) or p is None else 'bool' if isinstance(p, bool) else 'int' if isinstance(p, int) else 'float')

  @property
  def size(self):
    return SV(self.dom.card())

  @property
  def empty(self):
    return SV(self.dom.card() == 0)

  @property
  def shape(self):
    return (SV(self.dom.card()),)

  def _len(self):
    return SV(self.dom.card())

  def __len__(self):
    raise Unsupported('len() must go through the stub')

  def __str__(self):
    return '<series>'

  __repr__ = __str__

  def __format__(self, s):
    return '<series>'

  def __iter__(self):
    raise Unsupported('iteration over a symbolic series')

  def copy(self, deep=True):
    return self._like(self.fn)

  def __deepcopy__(self, memo):
    return self.copy()

  def pipe(self, f, *a, **k):
    return f(self, *a, **k)

  def __bool__(self):
    raise ValueError('The truth value of a Series is ambiguous')

  def __neg__(self):
    return self._map(lambda x: -1 * lift(x))

  def __invert__(self):
    return self._map(lambda x: (not x) if isinstance(x, bool) else ~x)

  def __abs__(self):
    return self._map(core.sym_abs)

  def __getitem__(self, k):
    if isinstance(k, (Series, Arr)):
      return self.loc[k]
    raise Unsupported('series access by label')

  @property
  def loc(self):
    return _SLoc(self)

  @property
  def iloc(self):
    return _SILoc(self)

  @property
  def dt(self):
    return _Dt(self)

  @property
  def str(self):
    raise Unsupported('Series.str')

  def apply(self, f, *a, **k):
    if k:
      raise Unsupported('Series.apply arguments')
    return self._map(lambda x: f(x, *a))

  def map(self, f, **k):
    if isinstance(f, dict):
      raise Unsupported('Series.map(dict)')
    if isinstance(f, Series):
      return self._lookup(f)
    return self._map(f)

  def _lookup(self, table):
    """the value of table at the row labelled with the element, missing if there is none (labels are unique)."""
    c = ctx()
    if len(table.dom.branches) != 1 or len(self.dom.branches) != 1 or table._index is None or len(table._index.levels) != 1:
      raise Unsupported('Series.map(Series)')
    lv, f = table._index.levels[0], self.fn
    m, n = len(self.dom.branches[0][0]), len(table.dom.branches[0][0])
    k = c.data.setdefault('n_lookup', [0])
    k[0] += 1
    ws = [z3.Function(f'lookup{k[0]}_{j}', *([I] * m), I) for j in range(n)]
    at = lambda i: (0, tuple(w(*i[1]) for w in ws))
    hit = lambda i, e: z3.And(table.dom.mem(e), key_eq(lv(e), f(i)))
    vs = [z3.Int(f'lk{j}') for j in range(m)]
    es = [z3.Int(f'le{j}') for j in range(n)]
    X, E = (0, tuple(vs)), (0, tuple(es))
    with c.bound(vs + es, z3.BoolVal(True)):
      h, g = hit(X, E), hit(X, at(X))
    found = lambda i: table.dom.exists(lambda e: SV(key_eq(lv(e), f(i))))
    with c.bound(vs, z3.BoolVal(True)):
      fd = found(X)
    c.axiom(z3.ForAll(vs, z3.Implies(z3.And(self.dom.mem(X), fd), g), patterns=[ws[0](*vs)]))
    c.data.setdefault('lookups', []).append((self, table, at))

    def val(i):
      x = lift(table.fn(at(i)))
      return SV(x.t, x.kind, core.simp(z3.Or(z3.Not(found(i)), isnull(x))))
    return self._like(val, dtype=table._dtype)

  def astype(self, t):
    return self._map(lambda x: npstub.cast_scalar(x, t))

  def fillna(self, v):
    def g(x):
      n = isnull(x)
      if core.is_true(n):
        return v
      if core.is_false(n):
        return x
      y = SV(x.t, x.kind) if isinstance(x, SV) else x
      return sym_ite(SV(n), v, y)
    return self._map(g)

  def isnull(self):
    return self._map(lambda x: SV(isnull(x)))

  isna = isnull

  def notnull(self):
    return self._map(lambda x: SV(simp(z3.Not(isnull(x)))))

  notna = notnull

  def dropna(self):
    f = self.fn
    return self._like(f, dom=self.dom.filter(lambda i: SV(z3.Not(isnull(f(i))))))

  def isin(self, vals):
    if isinstance(vals, (list, tuple, set)):
      vs = list(vals)
      def g(x):
        return SV(simp(z3.Or(*[key_eq(x, v) for v in vs]))) if vs else False
      return self._map(g)
    o = npstub.as_arr(vals)
    if o.ndim != 1:
      raise Unsupported('isin')
    d = o.dims[0]
    if isinstance(d, int):
      return self.isin([o.fn(k) for k in range(d)])
    return self._map(lambda x: SV(d.exists(lambda i: SV(key_eq(x, o.fn(i))))))

  def between(self, lo, hi, inclusive='both'):
    if inclusive != 'both':
      raise Unsupported('between')
    return (self >= lo) & (self <= hi)

  # reductions
  def _red(self, f):
    return f(self._nonnull_arr())

  def _nonnull_arr(self):
    f = self.fn
    p = npstub.peek(self.dom, f)
    if isinstance(p, SV) and p.null is not None:
      return Arr((self.dom.filter(lambda i: SV(z3.Not(isnull(f(i))))),), lambda i: SV(f(i).t, f(i).kind))
    return self._arr()

  def sum(self, *a, **k):
    return self._red(npstub.sum_)

  def mean(self, *a, **k):
    return self._red(npstub.mean)

  def min(self, *a, **k):
    return self._red(npstub.min_)

  def max(self, *a, **k):
    return self._red(npstub.max_)

  def std(self, ddof=1, **k):
    return npstub.std(self._nonnull_arr(), ddof=ddof)

  def var(self, ddof=1, **k):
    return npstub.var(self._nonnull_arr(), ddof=ddof)

  def any(self, *a, **k):
    return npstub.any_(self._arr())

  def all(self, *a, **k):
    return npstub.all_(self._arr())

  def count(self):
    f = self.fn
    return SV(self.dom.filter(lambda i: SV(z3.Not(isnull(f(i))))).card())

  def nunique(self, dropna=True):
    d = self.dom
    f = self.fn
    return SV(unique_dom(d.filter(lambda i: SV(z3.Not(isnull(f(i))))) if dropna else d, [f]).card())

  def drop_duplicates(self, keep='first'):
    if keep != 'first':
      raise Unsupported('drop_duplicates(keep)')
    return self._like(self.fn, dom=unique_dom(self.dom, [self.fn]))

  def unique(self):
    return Arr((unique_dom(self.dom, [self.fn]),), self.fn, self._dtype)

  def sort_values(self, ascending=True, **k):
    f = self.fn
    d = npstub.perm_dom(self.dom, _sort_key(f, ascending), tag='sort_values')
    return self._like(f, dom=d)

  def shift(self, k=1):
    if not (isinstance(k, int) and k == 1):
      raise Unsupported('shift')
    d, f = self.dom.positioned(), self.fn
    if d.posfn is None:
      raise Unsupported('shift of an unordered series')
    prev = prev_fn(d)

    def g(i):
      v = lift(f(prev(i)))
      return SV(v.t, v.kind, simp(d.posfn(i) == 0))
    return self._like(g)

  def diff(self, k=1):
    return self - self.shift(k)

  def sample(self, frac=None, n=None, random_state=None, replace=False):
    d = sample_dom(self.dom, frac, n, random_state, replace)
    if replace:
      f = self.fn
      return Series(d[0], lambda i: f(d[1](i)), Space(False), self.name)
    return self._like(self.fn, dom=d)

  def rank(self, method='average', ascending=True, **k):
    if method != 'first':
      raise Unsupported('rank method')
    f, d = self.fn, self.dom
    rk, nm, _ = npstub._rank_fn(d, _sort_key(f, ascending), tag=('rank', d.order))
    ctx().data.setdefault('pd_ranks', []).append((lambda i: SV(rk(*i[1]) + 1), ascending, d))
    return self._like(lambda i: SV(z3.ToReal(rk(*i[1]) + 1)))

  def get(self, label, default=None):
    lv = self._index.levels if self._index is not None else None
    if lv is None or len(lv) != 1:
      raise Unsupported('Series.get')
    c, d, f = ctx(), self.dom, self.fn
    by_key = getattr(self, 'by_key', None)
    if by_key is not None and isinstance(default, (int, float)) and default == 0:
      return by_key([label])
    ex = d.exists(lambda i: SV(key_eq(lv[0](i), label)))
    if c.fork(ex):
      if by_key is not None:
        return by_key([label])
      e = d.skolem('label')
      c.fact(key_eq(lv[0](e), label))
      return f(e)
    return default

  def reset_index(self, drop=False, **k):
    if drop:
      return Series(self.dom, self.fn, Space(), self.name)
    idx = self.index
    cols = {n: fn for n, fn in zip(idx.names, idx.levels)}
    cols[self.name] = self.fn
    return DataFrame._make(self.dom, cols, Space())

  def to_frame(self, name=None):
    return DataFrame._make(self.dom, {name or self.name: self.fn}, self.space, self._index)

  def rename(self, name):
    return self._like(self.fn, name=name)

  @property
  def plot(self):
    return PlotRec(self)

  def groupby(self, *a, **k):
    raise Unsupported('Series.groupby')

  def clip(self, lower=None, upper=None):
    return self._map(lambda x: npstub.clip(x, lower, upper))

  def eq(self, o):
    return self == o

  def ne(self, o):
    return self != o

  def lt(self, o):
    return self < o

  def le(self, o):
    return self <= o

  def gt(self, o):
    return self > o

  def ge(self, o):
    return self >= o

  def add(self, o):
    return self + o

  def sub(self, o):
    return self - o

  def mul(self, o):
    return self * o

  def div(self, o):
    return self / o

  truediv = div

  def floordiv(self, o):
    return self // o

  def pow(self, o):
    return self ** o

  def abs(self):
    return self._map(npstub.abs_)

  def duplicated(self, keep='first'):
    return DataFrame._make(self.dom, {'v': self.fn}, self.space).duplicated(keep=keep)

  @property
  def is_unique(self):
    return ~self.duplicated().any()

  @property
  def hasnans(self):
    return self.isnull().any()

  def value_counts(self, **k):
    if k:
      raise Unsupported('value_counts arguments')
    s = GroupBy(DataFrame._make(self.dom, {self.name: self.fn}, self.space), self.name).size()
    d = s.dom
    u = Dom(d.branches, order=('value_counts', id(self)), card=d.card(), name=d.name)   # ordered by count: position unknown
    r = Series(u, s.fn, s.space, 'count', Index(u, s.index.levels, s.index.names))
    r.by_label = s
    return r

  def sort_index(self, **k):
    if k:
      raise Unsupported('sort_index arguments')
    if 'by_label' in self.__dict__:
      return self.by_label
    if isinstance(self.dom.order, tuple) and self.dom.order[:1] == ('sorted',):
      return self
    raise Unsupported('sort_index')

  def where(self, cond, other=None):
    if callable(cond):
      cond = cond(self)
    if not isinstance(cond, Series) or cond.space is not self.space or not cond.dom.same_set(self.dom):
      raise Unsupported('Series.where')
    f, g, h = self.fn, cond.fn, (other.fn if isinstance(other, Series) else (lambda i: other))
    if isinstance(other, Series) and (other.space is not self.space or not other.dom.same_set(self.dom)):
      raise Unsupported('Series.where')
    return self._like(lambda i: sym_ite(SV(as_t(g(i), z3.BoolSort())), f(i), h(i)))

  def mask(self, cond, other=None):
    return self.where(~cond, other)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported(f'Series.{n}')


def _mkop(op):
  def f(self, o):
    if isinstance(o, (DataFrame,)):
      return NotImplemented
    return _series_bin(op, self, o)

  def r(self, o):
    return _series_bin(op, o, self)
  return f, r


for _n, _op in dict(add='+', sub='-', mul='*', truediv='/', floordiv='//', mod='%', pow='**').items():
  _f, _r = _mkop(_op)
  setattr(Series, f'__{_n}__', _f)
  setattr(Series, f'__r{_n}__', _r)
for _n, _op in dict(lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
  setattr(Series, f'__{_n}__', _mkop(_op)[0])
for _n, _op in {'and': '&', 'or': '|', 'xor': '^'}.items():
  _f, _r = _mkop(_op)
  setattr(Series, f'__{_n}__', _f)
  setattr(Series, f'__r{_n}__', _r)


def _sort_key(f, ascending):
  """Ordering key; dates and durations order as their day numbers."""
  def key(i):
    v = lift(f(i))
    if v.kind in ('date', 'td'):
      v = SV(v.t, None, v.null)
    return npstub.sbin('*', 1 if ascending else -1, v)
  return key


def npstub_trigger(t, vs):
  """an application in t that mentions all of vs."""
  todo = [t]
  while todo:
    y = todo.pop(0)
    if z3.is_app(y):
      if y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() and all(any(a.eq(v) for a in y.children()) for v in vs):
        return y
      todo.extend(y.children())
  return None


def prev_fn(d):
  """the element before an element, in the order of the domain."""
  c = ctx()
  memo = c.data.setdefault('prev', {})
  k = d.key()
  if k not in memo:
    if len(d.branches) != 1:
      raise Unsupported('shift of a union domain')
    m = len(d.branches[0][0])
    fs = [z3.Function(f'prev{len(memo)}_{j}', *([I] * m), I) for j in range(m)]
    va = [z3.Int(f'a{j}') for j in range(m)]
    A = (0, tuple(va))
    P = (0, tuple(f(*va) for f in fs))
    c.axiom(z3.ForAll(va, z3.Implies(z3.And(d.mem(A), d.posfn(A) > 0), z3.And(d.mem(P), d.posfn(P) == d.posfn(A) - 1)), patterns=[fs[0](*va)]))
    key = d.meta.get('sorted_by')
    if key is not None:
      # what sorting means for an element, the one before it, and any other
      vb = [z3.Int(f'b{j}') for j in range(m)]
      Bx = (0, tuple(vb))
      kk = lambda i: num_t(key(i))
      c.axiom(z3.ForAll(va, z3.Implies(z3.And(d.mem(A), d.posfn(A) > 0), kk(P) <= kk(A)), patterns=[fs[0](*va)]))
      trig = npstub_trigger(kk(Bx), vb)
      if trig is not None:
        c.axiom(z3.ForAll(va + vb, z3.Implies(z3.And(d.mem(A), d.mem(Bx)), z3.If(d.posfn(A) == 0, kk(Bx) >= kk(A), z3.Or(kk(Bx) <= kk(P), kk(Bx) >= kk(A)))), patterns=[z3.MultiPattern(fs[0](*va), trig)]))
    memo[k] = fs
    for hook in c.data.get('on_prev', ()):
      hook(d, fs)
  fs = memo[k]
  return lambda i: (0, tuple(f(*i[1]) for f in fs))


class _Dt:

  def __init__(self, s):
    self.s = s

  @property
  def days(self):
    def g(x):
      if isinstance(x, SV) and x.kind == 'td':
        return SV(x.t, None, x.null)
      return x.days
    return self.s._map(g)

  @property
  def date(self):
    return self.s.copy()

  def __getattr__(self, n):
    raise Unsupported(f'Series.dt.{n}')


def _mask_fn(obj, key):
  """boolean key -> predicate on elements of obj.dom."""
  if isinstance(key, Series):
    if key.space is not obj.space:
      raise Unsupported('boolean key with other labels')
    if not key.dom.same_set(obj.dom):
      raise Unsupported('boolean key with a different label set')
    return key.fn
  if isinstance(key, Arr) and key.ndim == 1:
    da, ma, mb = npstub.bdims(obj.dom, key.dims[0])
    return lambda i, g=key.cell.fn: g(mb(i))
  raise Unsupported('row selection of this form')


class _SLoc:

  def __init__(self, s):
    self.s = s

  def __getitem__(self, k):
    m = _mask_fn(self.s, k)
    return self.s._like(self.s.fn, dom=self.s.dom.filter(m))

  def __setitem__(self, k, v):
    raise Unsupported('assignment into a series')


class _SILoc:

  def __init__(self, s):
    self.s = s

  def __getitem__(self, k):
    s = self.s
    if isinstance(k, slice) and k.start == 1 and k.stop is None and k.step is None:
      d = s.dom.positioned()
      if d.posfn is None:
        raise Unsupported('iloc on an unordered series')
      return s._like(s.fn, dom=d.filter(lambda i: SV(d.posfn(i) >= 1)))
    if isinstance(k, int):
      return s.fn(s.dom.at(k))
    raise Unsupported('iloc')


# -- groups -----------------------------------------------------------------------
def rep_fn(d, fns):
  """representative (first row) of the rows of d that agree on fns."""
  c = ctx()
  memo = c.data.setdefault('reps', {})
  probe = tuple(key_term(npstub.peek(d, f)).sexpr() for f in fns)
  k = (d.key()[0], frozenset(probe))
  if k in memo:
    return memo[k]
  if len(d.branches) != 1:
    raise Unsupported('grouping a union domain')
  m = len(d.branches[0][0])
  n = len(memo)
  fs = [z3.Function(f'rep{n}_{j}', *([I] * m), I) for j in range(m)]
  va, vb = [z3.Int(f'a{j}') for j in range(m)], [z3.Int(f'b{j}') for j in range(m)]
  A, Bx = (0, tuple(va)), (0, tuple(vb))
  ra, rb = tuple(f(*va) for f in fs), tuple(f(*vb) for f in fs)
  same = lambda x, y: z3.And(*[key_eq(f(x), f(y)) for f in fns])
  with c.bound(va + vb, z3.BoolVal(True)):
    ax1 = z3.Implies(d.mem(A), z3.And(d.mem((0, ra)), same(A, (0, ra)), *[f(*ra) == r for f, r in zip(fs, ra)]))
    ax2 = z3.Implies(z3.And(d.mem(A), d.mem(Bx), same(A, Bx)), z3.And(*[x == y for x, y in zip(ra, rb)]))
  c.axiom(z3.ForAll(va, ax1, patterns=[z3.MultiPattern(*ra)]))
  c.axiom(z3.ForAll(va + vb, ax2, patterns=[z3.MultiPattern(*ra, *rb)]))
  memo[k] = fs
  return fs


def unique_dom(d, fns, order=None):
  fs = rep_fn(d, fns)
  u = d.filter(lambda i: SV(z3.And(*[f(*i[1]) == v for f, v in zip(fs, i[1])])), order=order)
  u.meta['rep'] = (d, fs)
  return u


def sample_dom(d, frac, n, random_state, replace):
  c = ctx()
  k = c.data.setdefault('n_sample', [0])
  k[0] += 1
  c.events.append(('sample', random_state, frac, replace))
  if n is not None:
    raise Unsupported('sample(n)')
  if replace:
    if not (isinstance(frac, (int, float)) and frac == 1):
      raise Unsupported('sample with replacement of a fraction')
    new = Dom.range(d.card(), f'boot{k[0]}')
    m = len(d.branches[0][0])
    if len(d.branches) != 1:
      raise Unsupported('bootstrap of a union domain')
    fs = [z3.Function(f'drawn{k[0]}_{j}', I, I) for j in range(m)]
    v = z3.Int('a0')
    src = lambda i: (0, tuple(f(*i[1]) for f in fs))
    c.axiom(z3.ForAll([v], z3.Implies(new.mem((0, (v,))), d.mem(src((0, (v,))))), patterns=[fs[0](v)]))
    c.data.setdefault('drawn', []).append((new, src, d))
    return new, src
  if isinstance(frac, (int, float)) and not isinstance(frac, SV) and frac == 1:
    m = len(d.branches[0][0])
    pf = z3.Function(f'shuffled{k[0]}', *([I] * m), I)
    return Dom(d.branches, posfn=(lambda idx: pf(*idx[1])) if len(d.branches) == 1 else None, order=('perm', f'shuffled{k[0]}'), card=d.card(), name=d.name)
  # a random subset of round(frac * n) elements
  if len(d.branches) != 1:
    raise Unsupported('sample of a union domain')
  m = len(d.branches[0][0])
  p = z3.Function(f'sampled{k[0]}', *([I] * m), B)
  size = ROUND(core.to_real(num_t(lift(frac))) * z3.ToReal(d.card()))
  c.fact(z3.And(size >= 0, size <= d.card()))
  c.data.setdefault('sampled', []).append((p, d, size))
  return d.filter(lambda i: SV(p(*i[1])), order=('perm', f'sampled{k[0]}'), card=size)


ROUND = z3.Function('round_half_even', R, I)


class GroupBy:

  def __init__(self, df, keys, dropna=True, as_index=True):
    self.df = df
    self.as_index = as_index
    self.keys = [keys] if not isinstance(keys, list) else list(keys)
    for k in self.keys:
      if k not in df.cols:
        raise KeyError(k)
    self.sel = None
    d = df.dom
    fns = [df.cols[k] for k in self.keys]
    nn = [z3.Not(isnull(npstub.peek(d, f))) for f in fns]
    if dropna and not all(core.is_true(simp(t)) for t in nn):
      d = d.filter(lambda i: SV(z3.And(*[z3.Not(isnull(f(i))) for f in fns])))
    self.dom, self.fns = d, fns
    self.gdom = unique_dom(d, fns, order=('sorted',) + tuple(str(k) for k in self.keys))
    # equal groups have equal labels
    sk = (self.gdom.key()[0], tuple(key_term(npstub.peek(d, f)).sexpr() for f in fns))
    self.space = ctx().data.setdefault('group_space', {}).setdefault(sk, Space())
    self.gindex = Index(self.gdom, fns, self.keys)

  def members(self, g, kv=None):
    fns = self.fns
    kv = [f(g) for f in fns] if kv is None else kv
    return self.dom.filter(lambda i: SV(z3.And(*[key_eq(f(i), v) for f, v in zip(fns, kv)])))

  def __getitem__(self, k):
    g = GroupBy.__new__(GroupBy)
    g.__dict__.update(self.__dict__)
    if isinstance(k, list):
      g.sel = k
      g.single = False
    else:
      g.sel = [k]
      g.single = True
    for x in g.sel:
      if x not in self.df.cols:
        raise KeyError(x)
    return g

  def _agg(self, col, how):
    f = self.df.cols[col]

    def go(g, kv=None):
      m = self.members(g, kv)
      s = Series(m, f)
      if how == 'sum':
        return s.sum()
      if how == 'count':
        return s.count()
      if how == 'nunique':
        # distinct values inside the group: rows that represent (key, value)
        fs = rep_fn(self.dom, self.fns + [f])
        return SV(m.filter(lambda i: SV(z3.And(z3.Not(isnull(f(i))), *[q(*i[1]) == v for q, v in zip(fs, i[1])]))).card())
      if how == 'mean':
        return s.mean()
      if how == 'size':
        return SV(m.card())
      if how == 'max':
        return s.max()
      if how == 'min':
        return s.min()
      raise Unsupported(f'aggregation {how}')
    return go

  def _all(self, how):
    cols = self.sel if self.sel is not None else [c for c in self.df.cols if c not in self.keys]
    out = {c: self._agg(c, how) for c in cols}
    if self.sel is not None and self.single:
      s = Series(self.gdom, out[cols[0]], self.space, cols[0], self.gindex)
      if not self.as_index:
        return s.reset_index()
      if how in ('sum', 'count', 'nunique', 'size'):
        s.by_key = lambda kv, go=out[cols[0]]: go(None, kv)   # the value for a key; zero for an absent key
      return s
    return self._flat(DataFrame._make(self.gdom, out, self.space, self.gindex))

  def _flat(self, r):
    return r if self.as_index else r.reset_index()

  def transform(self, how):
    if not isinstance(how, str) or self.sel is None or not self.single or self.dom is not self.df.dom:
      raise Unsupported('groupby.transform')
    df, go = self.df, self._agg(self.sel[0], how)
    return Series(df.dom, lambda i: go(i), df.space, self.sel[0], df._index)

  def sum(self, **k):
    return self._all('sum')

  def count(self):
    return self._all('count')

  def nunique(self):
    return self._all('nunique')

  def mean(self, **k):
    return self._all('mean')

  def max(self):
    return self._all('max')

  def min(self):
    return self._all('min')

  def size(self):
    if not self.as_index:
      raise Unsupported('groupby(as_index=False).size')
    return Series(self.gdom, self._agg(next(iter(self.df.cols)), 'size'), self.space, None, self.gindex)

  def agg(self, how=None, **named):
    if named:
      out = {}
      for n, (col, h) in named.items():
        if col not in self.df.cols:
          raise KeyError(col)
        out[n] = self._agg(col, h)
      return self._flat(DataFrame._make(self.gdom, out, self.space, self.gindex))
    if isinstance(how, str):
      return self._all(how)
    if isinstance(how, dict):
      return self._flat(DataFrame._make(self.gdom, {c: self._agg(c, h) for c, h in how.items()}, self.space, self.gindex))
    raise Unsupported('agg')

  aggregate = agg

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported(f'groupby.{n}')


# -- frames -------------------------------------------------------------------------
class _DFMeta(type):

  def __call__(cls, *a, **k):
    return _construct(*a, **k)

  def __instancecheck__(cls, x):
    return type(x) in (cls, Records)


def _column_of(v, dom):
  """column function of an assigned value over dom (positional for arrays)."""
  if isinstance(v, loader.SymList):
    v = v.arr
  if isinstance(v, Arr):
    if v.ndim == 0:
      x = v.fn()
      return lambda i: x
    if v.ndim != 1:
      raise ValueError('Per-column arrays must each be 1-dimensional')
    d = v.dims[0]
    g = v.cell.fn
    if isinstance(d, int):
      raise Unsupported('concrete array assigned to a symbolic frame')
    if d.same(dom):
      return g
    c = ctx()
    if not c.fork(d.card() == dom.card()):
      raise ValueError('Length of values does not match length of index')
    if d.full:
      pos = dom.posfn or position_fn(dom)
      return lambda i: g((0, (pos(i),)))
    raise Unsupported('positional assignment from a differently indexed array')
  if isinstance(v, (list, tuple)):
    raise Unsupported('concrete list assigned to a symbolic frame')
  return lambda i: v


def position_fn(d):
  """positions of the elements of a domain (some bijection with 0..n-1)."""
  c = ctx()
  memo = c.data.setdefault('positions', {})
  k = d.key()
  if k not in memo:
    if len(d.branches) != 1:
      raise Unsupported('positions in a union domain')
    m = len(d.branches[0][0])
    f = z3.Function(f'pos{len(memo)}', *([I] * m), I)
    va, vb = [z3.Int(f'a{j}') for j in range(m)], [z3.Int(f'b{j}') for j in range(m)]
    n = d.card()
    c.axiom(z3.ForAll(va, z3.Implies(d.mem((0, tuple(va))), z3.And(f(*va) >= 0, f(*va) < n)), patterns=[f(*va)]))
    c.axiom(z3.ForAll(va + vb, z3.Implies(z3.And(d.mem((0, tuple(va))), d.mem((0, tuple(vb))), f(*va) == f(*vb)), z3.And(*[x == y for x, y in zip(va, vb)])),
                      patterns=[z3.MultiPattern(f(*va), f(*vb))]))
    memo[k] = f
  f = memo[k]
  return lambda i: f(*i[1])


def _construct(data=None, columns=None, index=None, **k):
  if isinstance(data, dict):
    cols = {}
    dom = None
    for n, v in data.items():
      v = v._arr() if isinstance(v, (Series, Index)) else v
      if isinstance(v, loader.SymList):
        v = v.arr
      if isinstance(v, Arr) and v.ndim == 1:
        if isinstance(v.dims[0], int):
          return Records([{m: _at(w, j) for m, w in data.items()} for j in range(v.dims[0])])
        if dom is None:
          dom = v.dims[0]
    if dom is None:
      n = max([len(v) for v in data.values() if isinstance(v, (list, tuple))] or [0])
      return Records([{m: _at(w, j) for m, w in data.items()} for j in range(n)])
    for n, v in data.items():
      v = v._arr() if isinstance(v, (Series, Index)) else v
      cols[n] = _column_of(v, dom)
    return DataFrame._make(dom, cols, Space())
  if isinstance(data, list):
    return Records(data)
  raise Unsupported('DataFrame constructor')


def _at(v, j):
  if isinstance(v, (list, tuple)):
    return v[j]
  if isinstance(v, Arr):
    return v.fn(j) if v.ndim else v.fn()
  return v


class DataFrame(metaclass=_DFMeta):
  _is_pd_stub = True
  __array_ufunc__ = None
  __hash__ = None

  @staticmethod
  def _make(dom, cols, space=None, index=None, colnames=None):
    f = object.__new__(DataFrame)
    f.dom, f.cols, f.space, f._index = dom, dict(cols), space or Space(), index
    f.colnames = colnames
    f.version = 0
    return f

  from_records = None    # set below

  def _same_rows(self, cols):
    return DataFrame._make(self.dom, cols, self.space, self._index)

  def _arr(self):
    raise Unsupported('a whole frame as an array')

  def copy(self, deep=True):
    return self._same_rows(self.cols)

  def __deepcopy__(self, memo):
    return self.copy()

  def pipe(self, f, *a, **k):
    return f(self, *a, **k)

  def _len(self):
    return SV(self.dom.card())

  def __len__(self):
    raise Unsupported('len() must go through the stub')

  def __str__(self):
    return '<frame>'

  __repr__ = __str__

  def __format__(self, s):
    return '<frame>'

  def __bool__(self):
    raise ValueError('The truth value of a DataFrame is ambiguous')

  @property
  def columns(self):
    return Columns(self.cols)

  @columns.setter
  def columns(self, names):
    names = list(names)
    if len(names) != len(self.cols):
      raise ValueError('Length mismatch')
    if len(set(names)) != len(names):
      raise Unsupported('duplicate column names')
    self.cols = dict(zip(names, self.cols.values()))

  @property
  def index(self):
    return self._index if self._index is not None else Index(self.dom, [lambda i: SV(i[1][0])], [None])

  @index.setter
  def index(self, idx):
    if isinstance(idx, Index):
      def pull(f, d):
        if d.same(self.dom):
          return f
        da, ma, mb = npstub.bdims(self.dom, d)
        return lambda i: f(mb(i))
      self._index = Index(self.dom, [pull(f, idx.dom) for f in idx.levels], idx.names)
      self.space = Space()
      return
    raise Unsupported('index assignment')

  @property
  def shape(self):
    return (SV(self.dom.card()), len(self.cols))

  @property
  def empty(self):
    return SV(self.dom.card() == 0)

  @property
  def values(self):
    raise Unsupported('values of a whole frame')

  @property
  def dtypes(self):
    raise Unsupported('dtypes')

  # -- selection
  def __getitem__(self, k):
    if isinstance(k, (Series, Arr)):
      return self.loc[k]
    if isinstance(k, DataFrame):
      raise Unsupported('frame mask')
    if isinstance(k, (list, Columns)):
      ks = list(k)
      for x in ks:
        if x not in self.cols:
          raise KeyError(x)
      return self._same_rows({x: self.cols[x] for x in ks})
    if isinstance(k, slice):
      raise Unsupported('row slice')
    if k in self.cols:
      return Series(self.dom, self.cols[k], self.space, k, self._index)
    if not isinstance(k, tuple):
      sub = {(x[1] if len(x) == 2 else x[1:]): f for x, f in self.cols.items() if isinstance(x, tuple) and x[0] == k}
      if sub:
        if list(sub) == ['']:
          return Series(self.dom, sub[''], self.space, k, self._index)
        return self._same_rows(sub)
      # column axis of a plain index level is not reachable
    raise KeyError(k)

  def get(self, k, default=None):
    return self[k] if k in self.cols else default

  def __contains__(self, k):
    return k in self.cols

  def __iter__(self):
    return iter(self.cols)

  def __setitem__(self, k, v):
    self.version += 1
    if isinstance(k, list):
      if isinstance(v, DataFrame):
        for a, b in zip(k, v.cols):
          self[a] = v[b]
        return
      for a in k:
        self[a] = v
      return
    if isinstance(k, (Series, Arr)):
      raise Unsupported('frame mask assignment')
    if isinstance(v, Series):
      if v.space is not self.space:
        raise Unsupported('assignment of a differently labelled series')
      if not v.dom.same_set(self.dom):
        raise Unsupported('assignment of a series with other labels')
      self.cols[k] = v.fn
      return
    self.cols[k] = _column_of(v, self.dom)

  def __delitem__(self, k):
    del self.cols[k]

  def insert(self, loc, k, v):
    self[k] = v

  def assign(self, **k):
    d = self.copy()
    for n, v in k.items():
      d[n] = v(d) if callable(v) else v
    return d

  @property
  def loc(self):
    return _Loc(self)

  @property
  def iloc(self):
    return _ILoc(self)

  @property
  def style(self):
    return StylerRec(self)

  @property
  def plot(self):
    return PlotRec(self)

  def query(self, *a, **k):
    raise Unsupported('query')

  def head(self, *a):
    raise Unsupported('head')

  def drop(self, labels=None, columns=None, axis=0, inplace=False, **k):
    if columns is None and axis in (1, 'columns'):
      columns = labels
    if columns is None:
      raise Unsupported('dropping rows')
    columns = [columns] if not isinstance(columns, (list, Columns)) else list(columns)
    for x in columns:
      if x not in self.cols:
        raise KeyError(x)
    cols = {n: f for n, f in self.cols.items() if n not in columns}
    if inplace:
      self.version += 1
      self.cols = cols
      return None
    return self._same_rows(cols)

  def rename(self, mapper=None, columns=None, axis=None, inplace=False, **k):
    if columns is None:
      if axis not in (1, 'columns'):
        raise Unsupported('renaming rows')
      columns = mapper
    g = (lambda n: columns.get(n, n)) if isinstance(columns, dict) else columns
    names = [g(n) for n in self.cols]
    if len(set(names)) != len(names):
      raise Unsupported('duplicate column names')
    cols = dict(zip(names, self.cols.values()))
    if inplace:
      self.version += 1
      self.cols = cols
      return None
    return self._same_rows(cols)

  def drop_duplicates(self, subset=None, keep='first', **k):
    if keep != 'first':
      raise Unsupported('drop_duplicates(keep)')
    subset = list(self.cols) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
    d = unique_dom(self.dom, [self.cols[c] for c in subset])
    return DataFrame._make(d, self.cols, self.space, self._index_on(d))

  def duplicated(self, subset=None, keep='first'):
    subset = list(self.cols) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
    fs = rep_fn(self.dom, [self.cols[c] for c in subset])
    if keep != 'first':
      raise Unsupported('duplicated(keep)')
    return Series(self.dom, lambda i: SV(z3.Not(z3.And(*[f(*i[1]) == v for f, v in zip(fs, i[1])]))), self.space)

  def _index_on(self, d):
    return Index(d, self._index.levels, self._index.names) if self._index is not None else None

  def sort_values(self, by, ascending=True, **k):
    if isinstance(by, list):
      if len(by) != 1:
        raise Unsupported('sorting by several columns')
      by = by[0]
    f = self.cols[by]
    d = npstub.perm_dom(self.dom, _sort_key(f, ascending), tag='sort_values')
    return DataFrame._make(d, self.cols, self.space, self._index_on(d))

  def reset_index(self, drop=False, inplace=False, names=None, **k):
    cols = {}
    if not drop:
      if self._index is None:
        cols['index'] = lambda i: SV(i[1][0])
      else:
        tup = any(isinstance(x, tuple) for x in self.cols)
        for n, f in zip(self._index.names, self._index.levels):
          nm = (n, '') if tup else n
          if nm in self.cols:
            raise ValueError(f'cannot insert {n}, already exists')
          cols[nm] = f
    cols.update(self.cols)
    if inplace:
      self.cols, self._index, self.space = cols, None, Space()
      return None
    return DataFrame._make(self.dom, cols, Space())

  def set_index(self, keys, **k):
    keys = [keys] if not isinstance(keys, list) else keys
    for x in keys:
      if x not in self.cols:
        raise KeyError(x)
    idx = Index(self.dom, [self.cols[x] for x in keys], keys)
    return DataFrame._make(self.dom, {n: f for n, f in self.cols.items() if n not in keys}, Space(), idx)

  def groupby(self, by, as_index=True, sort=True, observed=None, dropna=True, **k):
    return GroupBy(self, by, dropna, as_index)

  def pivot_table(self, **k):
    return pivot_table(self, **k)

  def isnull(self):
    return self._same_rows({n: (lambda i, f=f: SV(isnull(f(i)))) for n, f in self.cols.items()})

  isna = isnull

  def notna(self):
    return self._same_rows({n: (lambda i, f=f: SV(z3.Not(isnull(f(i))))) for n, f in self.cols.items()})

  notnull = notna

  def items(self):
    return [(n, self[n]) for n in self.cols]

  def keys(self):
    return self.columns

  def pop(self, n):
    s = self[n]
    del self[n]
    return s

  def isin(self, vals):
    return self._same_rows({n: Series(self.dom, f).isin(vals).fn for n, f in self.cols.items()})

  def fillna(self, v):
    return self._same_rows({n: Series(self.dom, f).fillna(v).fn for n, f in self.cols.items()})

  def dropna(self, subset=None, **k):
    cs = list(self.cols) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
    d = self.dom.filter(lambda i: SV(z3.And(*[z3.Not(isnull(self.cols[x](i))) for x in cs])))
    return DataFrame._make(d, self.cols, self.space, self._index_on(d))

  def astype(self, t):
    if isinstance(t, dict):
      return self._same_rows({n: (Series(self.dom, f).astype(t[n]).fn if n in t else f) for n, f in self.cols.items()})
    return self._same_rows({n: Series(self.dom, f).astype(t).fn for n, f in self.cols.items()})

  def _reduce(self, name):
    return CSeries(list(self.cols), [getattr(Series(self.dom, f), name)() for f in self.cols.values()])

  def sum(self, axis=0, **k):
    if axis not in (0, 'index'):
      raise Unsupported('row sums')
    return self._reduce('sum')

  def mean(self, axis=0, **k):
    return self._reduce('mean')

  def nunique(self, axis=0, dropna=True):
    return self._reduce('nunique')

  def any(self, axis=0, **k):
    return self._reduce('any')

  def all(self, axis=0, **k):
    return self._reduce('all')

  def sample(self, frac=None, n=None, random_state=None, replace=False):
    d = sample_dom(self.dom, frac, n, random_state, replace)
    if replace:
      new, src = d
      idx = None
      if self._index is not None:
        idx = Index(new, [lambda i, f=f: f(src(i)) for f in self._index.levels], self._index.names)
      return DataFrame._make(new, {n_: (lambda i, f=f: f(src(i))) for n_, f in self.cols.items()}, Space(False), idx)
    return DataFrame._make(d, self.cols, self.space, self._index_on(d))

  def apply(self, *a, **k):
    raise Unsupported('DataFrame.apply')

  def merge(self, right, how='inner', on=None, left_on=None, right_on=None, suffixes=('_x', '_y'), **k):
    return merge(self, right, how, on, left_on, right_on, suffixes, **k)

  def _bin(self, op, o, flip=False):
    if isinstance(o, DataFrame):
      if o.space is not self.space or list(o.cols) != list(self.cols):
        raise Unsupported('frame arithmetic')
      return self._same_rows({n: _series_bin(op, self[n], o[n]).fn for n in self.cols})
    if isinstance(o, Series):
      raise Unsupported('frame/series arithmetic')
    return self._same_rows({n: (_series_bin(op, o, Series(self.dom, f)) if flip else _series_bin(op, Series(self.dom, f), o)).fn for n, f in self.cols.items()})

  def __getattr__(self, n):
    if n.startswith('__') or n in ('dom', 'cols', 'space', '_index'):
      raise AttributeError(n)
    if n in self.cols:
      return self[n]
    raise Unsupported(f'DataFrame.{n}')


for _n, _op in dict(add='+', sub='-', mul='*', truediv='/', lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
  setattr(DataFrame, f'__{_n}__', lambda self, o, _op=_op: self._bin(_op, o))
  if _n in ('add', 'mul', 'sub', 'truediv'):
    setattr(DataFrame, f'__r{_n}__', lambda self, o, _op=_op: self._bin(_op, o, True))


def _col_key(df, k):
  """columns selected by a loc column key -> (list of names, single?)."""
  if isinstance(k, (list, Columns)):
    for x in k:
      if x not in df.cols:
        raise KeyError(x)
    return list(k), False
  if isinstance(k, slice):
    if k == slice(None):
      return list(df.cols), False
    raise Unsupported('column slice')
  if isinstance(k, tuple) and any(isinstance(x, (slice, list)) for x in k):
    def ok(a, b):
      return (isinstance(b, slice) and b == slice(None)) or (isinstance(b, list) and a in b) or (not isinstance(b, (slice, list)) and a == b)
    ns = [n for n in df.cols if isinstance(n, tuple) and len(n) == len(k) and all(ok(a, b) for a, b in zip(n, k))]
    if not ns:
      raise KeyError(k)
    return ns, False
  return [k], True


class _Loc:

  def __init__(self, df):
    self.df = df

  def _split(self, k):
    if isinstance(k, tuple) and len(k) == 2 and not (all(isinstance(x, (str, int)) for x in k) and k in self.df.cols):
      return k
    return k, slice(None)

  def __getitem__(self, k):
    df = self.df
    r, ck = self._split(k)
    names, single = _col_key(df, ck)
    if single and names[0] not in df.cols:
      sub = df[names[0]]
      names, single = None, False
    d = df.dom
    if not (isinstance(r, slice) and r == slice(None)):
      if not isinstance(r, (Series, Arr)):
        raise Unsupported('row access by label')
      d = df.dom.filter(_mask_fn(df, r))
    idx = Index(d, df._index.levels, df._index.names) if df._index is not None else None
    if names is None:
      return DataFrame._make(d, sub.cols, df.space, idx)
    if single:
      return Series(d, df.cols[names[0]], df.space, names[0], idx)
    return DataFrame._make(d, {n: df.cols[n] for n in names}, df.space, idx)

  def __setitem__(self, k, v):
    df = self.df
    df.version += 1
    r, ck = self._split(k)
    names, single = _col_key(df, ck)
    allrows = isinstance(r, slice) and r == slice(None)
    m = None if allrows else _mask_fn(df, r)
    for n in names:
      if n not in df.cols:
        if any(isinstance(x, tuple) for x in df.cols) and not isinstance(n, tuple):
          raise Unsupported('setting a column group')
        old = lambda i: None
      else:
        old = df.cols[n]
      w = v
      if isinstance(v, DataFrame):
        if n not in v.cols:
          raise Unsupported('loc assignment: columns differ')
        w = v[n]
      if isinstance(w, Series):
        if w.space is not df.space:
          raise Unsupported('loc assignment of a differently labelled series')
        target = df.dom if m is None else df.dom.filter(m)
        if not (w.dom.same_set(target) or w.dom.same_set(df.dom)):
          raise Unsupported('loc assignment of a series with other labels')
        g = w.fn
      elif isinstance(w, Arr) and w.ndim == 1:
        g = _column_of(w, df.dom if m is None else df.dom.filter(m))
      elif isinstance(w, (list, tuple)):
        raise Unsupported('loc assignment of a list')
      else:
        x = npstub._unwrap(w)
        g = lambda i, x=x: x
      if m is None:
        df.cols[n] = g
      else:
        df.cols[n] = lambda i, g=g, old=old: sym_ite(m(i), g(i), old(i))


class PlotRec:
  """records data.plot(...)."""

  def __init__(self, data):
    self.data = data

  def __call__(self, **k):
    ctx().events.append(('plot_data', self.data, k))
    return k.get('ax')

  def __getattr__(self, n):
    raise Unsupported(f'plot.{n}')


class StylerRec:
  """records how a table is displayed: texts and styles per column (pandas Styler)."""
  _is_pd_stub = True
  __hash__ = None

  def __init__(self, df):
    self.data, self.caption, self.formats, self.styles, self.bars, self.null_props, self.hidden = df, None, {}, {}, {}, None, []

  def _cols(self, subset):
    if subset is None:
      return list(self.data.cols)
    if isinstance(subset, str):
      subset = [subset]
    for x in list(subset):
      if x not in self.data.cols:
        raise KeyError(x)
    return list(subset)

  def set_caption(self, text):
    self.caption = text
    return self

  def bar(self, subset=None, **k):
    for x in self._cols(subset):
      self.bars[x] = k
    return self

  def format(self, formatter=None, subset=None, na_rep=None, **k):
    if k:
      raise Unsupported('Styler.format arguments')
    for x in self._cols(subset):
      self.formats[x] = (formatter.get(x) if isinstance(formatter, dict) else formatter, na_rep)
    return self

  def highlight_null(self, color='red', subset=None, props=None):
    if subset is not None:
      raise Unsupported('highlight_null(subset)')
    self.null_props = props
    return self

  def map(self, f, subset=None, **k):
    for x in self._cols(subset):
      self.styles.setdefault(x, []).append((f, k))
    return self

  applymap = map

  def hide(self, subset=None, axis=0, **k):
    self.hidden.append((subset, axis))
    return self

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported(f'Styler.{n}')


class _ILoc:

  def __init__(self, df):
    self.df = df

  def __getitem__(self, k):
    if isinstance(k, int):
      e = self.df.dom.at(k)
      return CSeries(list(self.df.cols), [f(e) for f in self.df.cols.values()])
    raise Unsupported('iloc')


class CSeries:
  """a series with concrete labels (one per column, or a row)."""
  _is_pd_stub = True
  __array_ufunc__ = None
  __hash__ = None

  def __init__(self, labels, vals):
    self.labels, self.vals = labels, vals

  def _arr(self):
    return npstub.array(list(self.vals))

  @property
  def values(self):
    return self._arr()

  def _map(self, f, dtype=None):
    return CSeries(self.labels, [f(x) for x in self.vals])

  def _enary(self, f, args):
    raise Unsupported('function of a row')

  def __getitem__(self, k):
    if isinstance(k, CSeries):
      raise Unsupported('row mask')
    return self.vals[self.labels.index(k)]

  def any(self):
    return npstub.any_(self._arr())

  def all(self):
    return npstub.all_(self._arr())

  def sum(self):
    return npstub.sum_(self._arr())

  def max(self):
    return npstub.max_(self._arr())

  def __str__(self):
    return '<row>'

  __repr__ = __str__

  def __format__(self, s):
    return '<row>'

  def _len(self):
    return len(self.vals)

  def _o(self, op, o):
    if isinstance(o, CSeries):
      return CSeries(self.labels, [npstub.sbin(op, x, y) for x, y in zip(self.vals, o.vals)])
    return CSeries(self.labels, [npstub.sbin(op, x, o) for x in self.vals])


for _n, _op in dict(add='+', sub='-', mul='*', truediv='/', lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
  setattr(CSeries, f'__{_n}__', lambda self, o, _op=_op: self._o(_op, o))


class Records:
  """a frame of concretely many rows (results tables)."""
  _is_pd_stub = True
  __hash__ = None

  def __init__(self, rows, index=None):
    self.rows = [dict(r) for r in rows]
    self.idx = index

  def copy(self):
    return Records(self.rows, self.idx)

  @property
  def columns(self):
    return Columns(self.rows[0] if self.rows else [])

  def set_index(self, k):
    return Records([{n: v for n, v in r.items() if n != k} for r in self.rows], (k, [r[k] for r in self.rows]))

  def reset_index(self):
    return Records([{self.idx[0]: i, **r} for i, r in zip(self.idx[1], self.rows)])

  def _len(self):
    return len(self.rows)

  def __getitem__(self, k):
    if isinstance(k, list):
      return Records([{n: r[n] for n in k} for r in self.rows], self.idx)
    return RSeries([r[k] for r in self.rows])

  def sort_values(self, k, **kw):
    ctx().events.append(('sort_values', k, kw))
    return self

  def _arr(self):
    raise Unsupported('results table as array')

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported(f'results table: {n}')


class RSeries:
  _is_pd_stub = True
  __hash__ = None

  def __init__(self, vals):
    self.vals = vals

  def _arr(self):
    vals = self.vals
    return Arr((len(vals),), lambda k: vals[k])

  @property
  def values(self):
    return self._arr()

  def _map(self, f, dtype=None):
    return RSeries([f(x) for x in self.vals])

  def _enary(self, f, args):
    return RSeries([f(*[(a.vals[k] if isinstance(a, RSeries) else a) for a in args]) for k in range(len(self.vals))])

  def _o(self, op, o):
    return RSeries([npstub.sbin(op, x, o.vals[k] if isinstance(o, RSeries) else o) for k, x in enumerate(self.vals)])

  def mean(self):
    return npstub.mean(self._arr())

  def sum(self):
    return npstub.sum_(self._arr())

  def astype(self, t):
    return self._map(lambda x: npstub.cast_scalar(x, t))

  def apply(self, f):
    return self._map(f)

  def _len(self):
    return len(self.vals)


for _n, _op in dict(add='+', sub='-', mul='*', truediv='/', lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
  setattr(RSeries, f'__{_n}__', lambda self, o, _op=_op: self._o(_op, o))


# -- merge / pivot --------------------------------------------------------------------
def merge(left, right, how='inner', on=None, left_on=None, right_on=None, suffixes=('_x', '_y'), left_index=False, right_index=False, **k):
  if left_index or right_index or k.get('validate') or k.get('indicator'):
    raise Unsupported('merge options')
  if isinstance(right, Series):
    right = right.to_frame()
  if how == 'cross':
    lk = rk = []
  else:
    if on is not None:
      lk = rk = [on] if not isinstance(on, (list, tuple)) else list(on)
    elif left_on is not None:
      lk = [left_on] if not isinstance(left_on, list) else left_on
      rk = [right_on] if not isinstance(right_on, list) else right_on
      if lk != rk:
        raise Unsupported('merge on differently named keys')
    else:
      lk = rk = [c for c in left.cols if c in right.cols]
    for x in lk:
      if x not in left.cols or x not in right.cols:
        raise KeyError(x)
  lf = [left.cols[x] for x in lk]
  rf = [right.cols[x] for x in rk]
  match = lambda i, j: z3.And(*[key_eq(f(i), g(j)) for f, g in zip(lf, rf)]) if lf else z3.BoolVal(True)
  branches, kinds = [], []
  for a, (lr, lp) in enumerate(left.dom.branches):
    for b, (rr, rp) in enumerate(right.dom.branches):
      nl = len(lr)
      branches.append((tuple(lr) + tuple(rr), lambda *v, a=a, b=b, lp=lp, rp=rp, nl=nl: z3.And(lp(*v[:nl]), rp(*v[nl:]), match((a, tuple(v[:nl])), (b, tuple(v[nl:]))))))
      kinds.append(('both', a, b, nl))
  if how in ('left', 'outer'):
    for a, (lr, lp) in enumerate(left.dom.branches):
      branches.append((tuple(lr), lambda *v, a=a, lp=lp: z3.And(lp(*v), z3.Not(right.dom.exists(lambda j: SV(match((a, tuple(v)), j)))))))
      kinds.append(('left', a, None, None))
  if how in ('right', 'outer'):
    for b, (rr, rp) in enumerate(right.dom.branches):
      branches.append((tuple(rr), lambda *v, b=b, rp=rp: z3.And(rp(*v), z3.Not(left.dom.exists(lambda i: SV(match(i, (b, tuple(v)))))))))
      kinds.append(('right', None, b, None))
  if how not in ('inner', 'left', 'outer', 'right', 'cross'):
    raise ValueError(f'merge how={how}')
  n_ = ctx().data.setdefault('n_merge', [0])
  n_[0] += 1
  dom = Dom(branches, order=('merge', n_[0]), name='merged')
  dom.meta['kinds'] = kinds

  def col(lfn, rfn):
    def f(i):
      kind, a, b, nl = kinds[i[0]]
      if kind == 'both':
        return lfn((a, i[1][:nl])) if lfn is not None else rfn((b, i[1][nl:]))
      if kind == 'left':
        return lfn((a, i[1])) if lfn is not None else float('nan')
      return rfn((b, i[1])) if rfn is not None else float('nan')
    return f
  cols = {}
  for n, f in left.cols.items():
    if n in lk:
      cols[n] = col(f, right.cols[n])
    elif n in right.cols:
      cols[n + suffixes[0]] = col(f, None)
    else:
      cols[n] = col(f, None)
  for n, f in right.cols.items():
    if n in rk:
      continue
    nm = n + suffixes[1] if n in left.cols else n
    if nm in cols:
      raise Unsupported('duplicate column names')
    cols[nm] = col(None, f)
  return DataFrame._make(dom, cols, Space())


def _codes(t, out):
  t = simp(t)
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
    _codes(t.arg(1), out)
    _codes(t.arg(2), out)
  elif z3.is_int_value(t) and t.as_long() in core._code_objs:
    out.append(core._code_objs[t.as_long()])
  elif z3.is_int_value(t):
    out.append(t.as_long())
  elif z3.is_rational_value(t) and t.denominator_as_long() == 1:
    out.append(t.numerator_as_long())
  else:
    raise Unsupported('pivot over a column with unknown values')


def categories(d, f):
  p = npstub.peek(d, f)
  if not isinstance(p, SV):
    return [p]
  out = []
  _codes(p.t, out)
  return list(dict.fromkeys(out))


def pivot_table(data, values=None, index=None, columns=None, aggfunc='mean', fill_value=None, **k):
  if k:
    raise Unsupported(f'pivot_table options {sorted(k)}')
  if aggfunc not in ('sum', 'mean', 'count') and not callable(aggfunc):
    raise Unsupported(f'pivot aggregation {aggfunc}')
  if callable(aggfunc) and fill_value is not None:
    raise Unsupported('pivot with a function and fill_value')
  c = ctx()
  keys = [index] if not isinstance(index, list) else list(index)
  single = not isinstance(values, list)
  vals = [values] if single else list(values)
  for x in keys + vals + [columns]:
    if x not in data.cols:
      raise KeyError(x)
  cf = data.cols[columns]
  d = data.dom.filter(lambda i: SV(z3.Not(isnull(cf(i)))))
  fns = [data.cols[x] for x in keys]
  g = GroupBy(DataFrame._make(d, data.cols, data.space), keys)
  present = []
  for p in categories(data.dom, cf):
    if p is None:
      continue
    if c.fork(g.dom.exists(lambda i: SV(key_eq(cf(i), p)))):
      present.append(p)
  if not present:
    raise Unsupported('pivot of no rows')
  cols = {}
  for v in vals:
    f = data.cols[v]
    for p in sorted(present):
      def cell(e, f=f, p=p):
        m = g.members(e).filter(lambda i: SV(key_eq(cf(i), p)))
        s = Series(m, f)
        if callable(aggfunc):
          # evaluated for cells with rows only
          some = m.exists(lambda i: SV(z3.BoolVal(True)))
          with c.bound([], some):
            r = aggfunc(s)
        elif aggfunc == 'sum':
          r = s.sum()
        elif aggfunc == 'count':
          r = s.count()
        else:
          r = s.mean()
        if fill_value is None:
          r = lift(r)
          return SV(r.t, r.kind, z3.Not(m.exists(lambda i: SV(z3.BoolVal(True)))))
        if isinstance(fill_value, (int, float)) and fill_value == 0 and aggfunc in ('sum', 'count'):
          return r
        return sym_ite(SV(m.exists(lambda i: SV(z3.BoolVal(True)))), r, fill_value)
      cols[(v, p) if not single else p] = cell
  return DataFrame._make(g.gdom, cols, g.space, g.gindex)


def concat(objs, *a, **k):
  raise Unsupported('pd.concat')


# -- module ---------------------------------------------------------------------------
class _IndexSlice:

  def __getitem__(self, k):
    return k


class _MIMeta(type):

  def __instancecheck__(cls, x):
    return (isinstance(x, Index) and len(x.levels) > 1) or (isinstance(x, Columns) and x.nlevels > 1)


class MultiIndex(metaclass=_MIMeta):

  @staticmethod
  def from_tuples(tuples, names=None):
    return Columns(list(tuples), names)

  @staticmethod
  def from_arrays(arrays, names=None):
    arrs = [npstub.as_arr(a) for a in arrays]
    d = arrs[0].dims[0]
    if isinstance(d, int):
      raise Unsupported('concrete MultiIndex')
    lv = []
    base = next((a.dims[0] for a in arrs if not a.dims[0].full), d)
    for a in arrs:
      da, ma, mb = npstub.bdims(base, a.dims[0])
      lv.append(lambda i, g=a.cell.fn, mb=mb: g(mb(i)))
    return Index(base, lv, names)

  @staticmethod
  def from_product(*a, **k):
    raise Unsupported('MultiIndex.from_product')


class _IdxMeta(type):

  def __call__(cls, data, name=None, **k):
    a = npstub.as_arr(data)
    if isinstance(a.dims[0], int):
      return Columns([a.fn(k_) for k_ in range(a.dims[0])])
    return Index(a.dims[0], [a.cell.fn], [name])

  def __instancecheck__(cls, x):
    return isinstance(x, (Index, Columns))


class IndexType(metaclass=_IdxMeta):
  pass


DATEOF = core.DATEOF


def to_datetime(x, *a, **k):
  if a or k:
    raise Unsupported('to_datetime options')

  def g(v):
    if isinstance(v, SV) and v.kind == 'date':
      return v
    if isinstance(v, SV) and v.kind == 'obj':
      return SV(DATEOF(v.t), 'date', v.null)
    if isinstance(v, str):
      import pandas as rp
      return core.lift_date(rp.to_datetime(v).to_pydatetime())
    raise Unsupported('to_datetime')
  return npstub.emap(g, x)


def to_numeric(x, *a, **k):
  if a or k:
    raise Unsupported('to_numeric options')

  def g(v):
    if isinstance(v, SV) and v.kind == 'obj':
      return SV(npstub.PARSE(v.t), None, v.null)
    return v
  return npstub.emap(g, x)


def _is_dt(s):
  return s.dtype.name == 'date'


def _is_int(s):
  return s.dtype.name == 'int'


def _from_records(data, **k):
  return Records(list(data))


def make_module():
  m = types.ModuleType('pandas')
  DataFrame.from_records = staticmethod(_from_records)
  m.DataFrame, m.Series, m.MultiIndex, m.Index = DataFrame, Series, MultiIndex, IndexType
  m.IndexSlice = _IndexSlice()
  m.pivot_table, m.merge, m.concat = pivot_table, merge, concat
  m.to_datetime, m.to_numeric = to_datetime, to_numeric
  m.NA, m.NaT = None, None

  def _null(x):
    if isinstance(x, (Series, DataFrame)):
      return x.isnull()
    t = isnull(x)
    return True if core.is_true(t) else False if core.is_false(t) else SV(t)
  m.isnull = m.isna = _null
  m.notnull = m.notna = lambda x: ~_null(x) if not isinstance(_null(x), bool) else not _null(x)
  m.api = types.SimpleNamespace(types=types.SimpleNamespace(is_datetime64_any_dtype=_is_dt, is_integer_dtype=_is_int,
                                                            is_numeric_dtype=lambda s: s.dtype.name in ('int', 'float')))
  m.Timestamp = m.Timedelta = None

  def missing(n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported(f'pandas.{n}')
  m.__getattr__ = missing
  st = types.ModuleType('pandas.io.formats.style')
  st.Styler = object
  fm = types.SimpleNamespace(style=st)
  return {'pandas': m, 'pandas.io': types.SimpleNamespace(formats=fm), 'pandas.io.formats': fm, 'pandas.io.formats.style': st}
