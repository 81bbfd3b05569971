"""Plots of distributions, simulations and effects draw the numbers they are given."""
from props.common import *

ID = 'C29'
TITLE = 'Plots of distributions, simulations and effects draw the given numbers'
STATEMENT = (
    'The history of a metric is drawn as its total per week, the share of items that reach each value of their weekly average, and the share of the metric captured by each share of the top items. '
    'The simulation plots draw the estimates with and without effect and both sets of p-values with lines at zero and at the minimum detectable effect, and need a validated design. '
    'The effects plot draws for every metric its relative effect with exactly its confidence interval, unbounded ends as arrows and unknown effects at zero, at the row labelled with its name, the primary metric apart, significant and insignificant effects told apart, whatever is infinite, unknown or absent, provided the primary metric is there.')
QUANT = dict(over=['inputs', 'configurations'], text='all data and results, including infinite and missing bounds, any number of items, weeks and metrics')
WHY = 'Tests check that plotting returns the right number of axes; what is drawn is never looked at.'
ANCHORS = dict(files=['feedx/plotting.py'], mechanism=[
    dict(name='plot_metric_history', where='feedx/plotting.py'),
    dict(name='plot_deep_dive', where='feedx/plotting.py'),
    dict(name='plot_effects', where='feedx/plotting.py')])
LEVEL_NOTE = ('The curves, densities and error bars for any number of values; the layout of the effects plot for one to four metrics. What matplotlib does with the arguments it is given is recorded, not modelled; the runtime contract reads the drawn artists.')
TRUSTED = ['matplotlib (recorder in props/C29_plots.py)', 'numpy sort, cumsum, boolean selection (engine/npstub.py)']
BOUNDED = ['layout of the effects plot for one to four metrics']
ASSUMPTIONS = ['a finite bound lies on its side of the effect', 'floats as reals']
CONTRACTS = []


class Ax:
  """axes that record what is drawn."""

  def __init__(self):
    self.log = []

  def calls(self, name):
    return [(a, k) for n, a, k, _ in self.log if n == name]

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)

    def f(*a, **k):
      r = Bars() if n == 'errorbar' else Ax()
      self.log.append((n, a, k, r))
      return r
    if n in ('xaxis', 'yaxis'):
      return Ax()
    return f


class Bars:
  """the result of errorbar: [..., [line]]."""

  def __init__(self):
    self.style = None

  def __getitem__(self, k):
    from engine.core import Unsupported
    if k not in (-1, 2):
      raise Unsupported('errorbar result')
    return [self]

  def set_linestyle(self, s):
    self.style = s

  set_ls = set_linestyle


class Plt:

  def __init__(self):
    self.axes = []

  def subplots(self, nrows=1, ncols=1, **k):
    self.k = k
    self.axes = [Ax() for _ in range(nrows * ncols)]
    return Ax(), (self.axes if nrows * ncols > 1 else self.axes[0])


def _restore(v):
  pl = v.mod('plotting')
  return {('plotting', n): getattr(pl, n) for n in ('plt', '_plot_horizontal_error_bar_with_infs')}


def setup(v):
  pl = v.mod('plotting')
  pl.plt = Plt()
  return pl, pl.plt


def values(c, name='value'):
  from props.spec import z3, SV
  from engine import npstub
  n = c.int('n_' + name)
  c.assume(n.t >= 1)
  f = z3.Function(name, z3.IntSort(), z3.RealSort())
  d = npstub.Dom.range(n.t, name)
  return npstub.Arr((d,), lambda i: SV(f(i[1][0]))), d, n.t


def elt(c, x, k):
  """element number k of a vector."""
  from props.spec import Rt
  from engine import npstub
  x = npstub.as_arr(x)
  d = x.dims[0]
  return Rt(x.fn(d.at(k)))


def curve(c, ax, n, xs, ys, what):
  """ax.plot was called once and drew the points (xs(k), ys(k)) for k < n."""
  from props.spec import z3, And
  from engine import npstub
  p = ax.calls('plot')
  c.prove(z3.BoolVal(len(p) == 1 and len(p[0][0]) >= 2), f'{what}: one curve')
  x, y = p[0][0][:2]
  for a, w in ((x, 'x'), (y, 'y')):
    c.prove(npstub.as_arr(a).dims[0].card() == n, f'{what}: number of points ({w})')
  k = c.fresh('k', z3.IntSort()).t
  c.assume(And(k >= 0, k < n))
  c.prove(elt(c, x, k) == xs(k), f'{what}: position')
  c.prove(ys(k, elt(c, y, k)), f'{what}: height')


def distribution(c, ax, v, n):
  from props.spec import z3
  from engine import npstub
  s = npstub.sort(v)
  curve(c, ax, n, lambda k: elt(c, s, k), lambda k, y: y * z3.ToReal(n) == z3.ToReal(n - k), 'share of items')
  c.prove(z3.BoolVal([a for a, k in ax.calls('set_yscale')] == [('log',)]), 'logarithmic scale')


def lorenz(c, ax, v, n):
  from props.spec import z3, Rt
  from engine import npstub
  s = npstub.cumsum(npstub.sort(v)[::-1])
  t = Rt(npstub.sum_(v))
  curve(c, ax, n, lambda k: z3.ToReal(k + 1) / z3.ToReal(n), lambda k, y: z3.Implies(t != 0, y * t == elt(c, s, k)), 'share of the metric')


@contract(CONTRACTS, '_make_cumulative_distribution_plot', subst=_restore, definedness='assume')
def _cdf(c, v):
  pl, _ = setup(v)
  x, d, n = values(c)
  ax = Ax()
  pl._make_cumulative_distribution_plot(x, ax)
  distribution(c, ax, x, n)


@contract(CONTRACTS, '_make_lorenz_plot', subst=_restore, definedness='assume')
def _lor(c, v):
  pl, _ = setup(v)
  x, d, n = values(c)
  ax = Ax()
  pl._make_lorenz_plot(x, ax)
  lorenz(c, ax, x, n)


@contract(CONTRACTS, '_make_density_plot', subst=_restore)
def _density(c, v):
  from props.spec import z3, as_t
  from props.frames import frame
  pl, _ = setup(v)
  df = frame(c, {'effect': 'real', 'other': 'real'})
  ax = Ax()
  pl._make_density_plot(df, 'effect', ax)
  _hist(c, ax, df, 'effect', 'C0')


def _hist(c, ax, df, col, color, k=0, n=1):
  from props.spec import z3, as_t
  from props.C21_analysis_samples import _vector
  h = ax.calls('hist')
  c.prove(z3.BoolVal(len(h) == n and h[k][1].get('color') == color and not h[k][1].get('cumulative') and h[k][1].get('weights') is None), 'densities drawn')
  _vector(c, h[k][0][0] if h[k][0] else h[k][1]['x'], df.dom, lambda i: as_t(df.cols[col](i)), f'density of {col}')


@contract(CONTRACTS, 'plot_metric_history', subst=_restore, definedness='assume')
def _history(c, v):
  from props.spec import z3, as_t, Rt, SV
  from props.frames import frame, snap, unchanged
  from engine import npstub
  pl, plt = setup(v)
  df = frame(c, {'week': 'date', 'sku': 'obj', 'net_sales': 'real', 'x': 'real'})
  c.assume(df.dom.card() >= 1)
  s = snap(df)
  out = pl.plot_metric_history(df, 'net_sales', item_id_column='sku', week_start_column_name='week')
  ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
  ok(out is plt.axes and len(out) == 3, 'three plots')
  unchanged(c, df, s, 'data')
  m = df.groupby('sku')['net_sales'].mean().values
  n = m.dims[0].card()
  distribution(c, plt.axes[1], m, n)
  lorenz(c, plt.axes[2], m, n)
  w = df.groupby('week')['net_sales'].sum()
  p = plt.axes[0].calls('plot')
  ok(len(p) == 1, 'one line')
  x, y = [npstub.as_arr(q._arr() if hasattr(q, '_arr') else q) for q in p[0][0][:2]]
  ws = w.dom
  ok(x.dims[0].same_rows(y.dims[0]) and x.dims[0].same_rows(ws), 'one point per week')
  i = ws.skolem('w')
  wk = df.cols['week']
  e = df.dom.skolem('e')
  c.prove(Rt(y.fn(i)) == Rt(w.fn(i)), 'total of the week')
  c.prove(as_t(x.fn(i)) == as_t(w.index.levels[0](i)), 'the week')


@contract(CONTRACTS, 'plot_deep_dive', subst=_restore)
def _deep(c, v):
  from props.spec import z3, as_t, Rt
  from props.C27_validation import validated, blank
  pl, plt = setup(v)
  ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
  a, d, aa, ab = validated(c, v)
  if c.decide(2):
    a.aa_simulation_results = a.ab_simulation_results = None
    o = c.call(pl.plot_deep_dive, a)
    ok(o.raised(ValueError), 'a design that is not validated is rejected')
    return
  out = pl.plot_deep_dive(a)
  ok(out is plt.axes and len(out) == 3, 'three plots')
  _hist(c, out[0], aa, 'absolute_difference', 'C0', 0, 2)
  _hist(c, out[0], ab, 'absolute_difference', 'C1', 1, 2)
  l = out[0].calls('axvline')
  ok(len(l) == 2, 'two lines')
  for (args, k), x, col in zip(l, (0, a.minimum_detectable_effect), ('C0', 'C1')):
    c.prove(Rt(k['x'] if 'x' in k else args[0]) == Rt(x), 'true effect')
    ok(k.get('color') == col, 'in the colour of its density')
  _hist(c, out[1], aa, 'p_value', 'C0')
  _hist(c, out[2], ab, 'p_value', 'C1')


def bounded(c, name, d):
  """a vector whose elements may be infinite or unknown."""
  from props.spec import z3, SV
  from engine import npstub
  I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
  f, u, g = z3.Function(name, I, R), z3.Function(f'{name}_unbounded', I, B), z3.Function(f'{name}_unknown', I, B)
  c.data.setdefault('inf_of', {})[f.name()] = u
  a = npstub.Arr((d,), lambda i: SV(f(i[1][0]), None, g(i[1][0])))
  return a, (lambda i: f(i[1][0])), (lambda i: z3.Not(z3.Or(u(i[1][0]), g(i[1][0]))))


@contract(CONTRACTS, '_plot_horizontal_error_bar_with_infs', subst=_restore)
def _bars(c, v):
  from props.spec import z3, as_t, And, Or, Not, Implies, Rt, SV
  from props.C21_analysis_samples import _vector
  from engine import npstub
  pl, _ = setup(v)
  ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
  y, d, n = values(c, 'row')
  val, x, xf = bounded(c, 'effect', d)
  lo, l, lf = bounded(c, 'lower', d)
  hi, h, hf = bounded(c, 'upper', d)
  i = z3.Int('q')
  I_ = (0, (i,))
  X = lambda e: z3.If(xf(e), x(e), z3.RealVal(0))
  c.axiom(z3.ForAll([i], Implies(d.mem(I_), And(Implies(lf(I_), And(xf(I_), l(I_) <= x(I_))), Implies(hf(I_), And(xf(I_), x(I_) <= h(I_))))), patterns=[l(I_)]))
  before = [(a, a.cell.fn) for a in (y, val, lo, hi)]
  ax = Ax()
  dashed = bool(c.decide(2))
  pl._plot_horizontal_error_bar_with_infs(ax=ax, y_position=y, value=val, value_lb=lo, value_ub=hi, fmt='.C0', **(dict(errorbar_style='--', alpha=0.3) if dashed else {}))
  for a, f in before:
    e = d.skolem('b')
    from props.frames import same
    same(c, a.fn(e), f(e), 'arguments unchanged')
  bars = [(a, k, r) for nm, a, k, r in ax.log if nm == 'errorbar']
  ok(bars and all(not a for a, k, r in bars), 'error bars')
  ok(all((r.style == '--') == dashed for a, k, r in bars), 'all bars in the requested style')
  ok(all(k.get('fmt') == '.C0' and k.get('alpha') == (0.3 if dashed else None) for a, k, r in bars), 'all bars in the requested colour')
  main = bars[0][1]
  row = lambda e: as_t(y.fn(e))
  _vector(c, main['y'], d, row, 'rows')
  _vector(c, main['x'], d, X, 'effects')
  err = main['xerr']
  _vector(c, err[0], d, lambda e: z3.If(lf(e), X(e) - l(e), z3.RealVal(0)), 'distance to the lower bound')
  _vector(c, err[1], d, lambda e: z3.If(hf(e), h(e) - X(e), z3.RealVal(0)), 'distance to the upper bound')
  ok(not any(main.get(k) for k in ('xuplims', 'xlolims', 'uplims', 'lolims')), 'plain bars')
  rest = [k for a, k, r in bars[1:]]
  for flag, fin, what, b in (('xuplims', lf, 'lower', lo), ('xlolims', hf, 'upper', hi)):
    k = [x_ for x_ in rest if x_.get(flag)]
    open_ = d.filter(lambda e: ~npstub.isfinite(b.fn(e)))
    c.fact(d.exists(lambda e: ~npstub.isfinite(b.fn(e))) == (open_.card() > 0))
    if c.fork(open_.card() > 0):
      ok(len(k) == 1, f'{what}: arrows for the unbounded ends')
      if k:
        k = k[0]
        _vector(c, k['y'], open_, row, f'{what}: rows of the arrows')
        _vector(c, k['x'], open_, X, f'{what}: arrows start at the effect')
        a = npstub.as_arr(k['xerr'])
        ok(a.ndim == 1 and a.dims[0].same_rows(open_), f'{what}: one arrow each')
        e = open_.skolem('a')
        c.prove(Rt(a.fn(e)) >= 0, f'{what}: arrows have a length')
    else:
      ok(not k, f'{what}: no arrows without unbounded ends')
  ok(len(rest) == sum(bool(k.get('xuplims')) + bool(k.get('xlolims')) for k in rest), 'nothing else')


@contract(CONTRACTS, '_plot_horizontal_error_bar_with_infs (nothing to draw)', subst=_restore)
def _nobars(c, v):
  from props.spec import z3
  pl, _ = setup(v)
  ax = Ax()
  pl._plot_horizontal_error_bar_with_infs(ax, [], [], [], [], fmt='.C0')
  c.prove(z3.BoolVal(not ax.calls('errorbar')), 'nothing is drawn')


class Vec:
  """a column of concretely many cells."""
  _is_pd_stub = True
  __hash__ = None

  def __init__(self, xs):
    self.xs = list(xs)

  @property
  def values(self):
    return self

  array = values

  def to_numpy(self, *a, **k):
    return self

  tolist = lambda self: list(self.xs)

  def _len(self):
    return len(self.xs)

  __len__ = _len

  def __iter__(self):
    return iter(self.xs)

  def _arr(self):
    from engine import npstub
    xs = self.xs
    return npstub.Arr((len(xs),), lambda k: xs[k])

  def __getitem__(self, k):
    if isinstance(k, int):
      return self.xs[k]
    return Vec(x for x, m in zip(self.xs, k) if m)

  def __invert__(self):
    return Vec(not x for x in self.xs)

  def __eq__(self, o):
    return Vec(x == o for x in self.xs)

  def __ne__(self, o):
    return Vec(x != o for x in self.xs)

  @property
  def loc(self):
    return self

  iloc = loc
  cat = loc

  def astype(self, t):
    from engine.core import Unsupported
    if t in (bool, 'bool'):
      return self
    if t != 'category':
      raise Unsupported('astype')
    return self

  def sum(self):
    return sum(self.xs)

  def any(self):
    return any(self.xs)

  def all(self):
    return all(self.xs)

  def item(self):
    [x] = self.xs
    return x

  def isin(self, o):
    return Vec(x in list(o) for x in self.xs)

  def __getattr__(self, n):
    if n.startswith('__') or n == 'xs':
      raise AttributeError(n)
    from engine.core import Unsupported
    raise Unsupported(f'column: {n}')

  @property
  def str(self):
    return StrVec(self.xs)

  @property
  def categories(self):
    return Vec(sorted(set(self.xs)))

  @property
  def codes(self):
    c = sorted(set(self.xs))
    return Vec(c.index(x) for x in self.xs)


class StrVec:

  def __init__(self, xs):
    self.xs = xs

  def __getattr__(self, n):
    return lambda *a: Vec(getattr(x, n)(*a) for x in self.xs)


class Tab:
  """a results table with concretely many rows."""
  _is_pd_stub = True

  def __init__(self, names, cols):
    self.names, self.cols = names, cols

  def reset_index(self, names='index', **k):
    return Tab(self.names, {names: self.names, **self.cols})

  @property
  def index(self):
    return Vec(self.names)

  def __getitem__(self, k):
    if isinstance(k, Vec):
      return self.loc[k]
    if isinstance(k, list):
      return Tab(self.names, {n: self.cols[n] for n in k})
    return Vec(self.cols[k])

  @property
  def columns(self):
    return list(self.cols)

  def copy(self):
    return Tab(self.names, dict(self.cols))

  def _len(self):
    return len(self.names)

  def __getattr__(self, n):
    if n.startswith('__') or n in ('names', 'cols'):
      raise AttributeError(n)
    if n in self.cols:
      return self[n]
    from engine.core import Unsupported
    raise Unsupported(f'results table: {n}')

  @property
  def loc(self):
    t = self

    class Loc:

      def __getitem__(self, k):
        m, col = k if isinstance(k, tuple) else (k, None)
        if col is None:
          return Tab(*[list(Vec(t.names)[m])], {n: list(Vec(x)[m]) for n, x in t.cols.items()})
        return Vec(t.cols[col])[m]
    return Loc()


def _list(x):
  from engine import npstub
  if isinstance(x, (list, tuple, Vec, range)):
    return list(x)
  x = npstub.as_arr(x)
  return [npstub.conc(x.fn(k)) for k in range(x.dims[0])]


def _effects(n):
  def fn(c, v):
    import types
    from props.spec import z3, as_t
    pl, plt = setup(v)
    ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
    names = [['Zeta rate', 'clicks', 'abc', 'CTR'][k] for k in range(n)]
    where = c.decide(n + 2)       # row of the primary metric, none, or two
    pm = 'Sales'
    if where < n:
      names[where] = ('Sales', 'sales', 'SALES')[c.decide(3)]
    elif where > n and n > 1:
      names[0], names[-1] = 'sales', 'Sales'
    sig = [bool(c.decide(2)) for _ in range(n)] if where < n else [True] * n
    custom = bool(c.decide(2))
    cn = ['rel', 'lo', 'hi', 'sig'] if custom else ['relative_difference', 'relative_difference_lower_bound', 'relative_difference_upper_bound', 'is_significant']
    cells = {f: [c.real(f'{f}{k}') for k in range(n)] for f in ('d', 'l', 'u')}
    t = Tab(names, dict(zip(cn, [cells['d'], cells['l'], cells['u'], sig])))
    if custom:
      t.cols.update(relative_difference=[c.real('w')] * n)
    bars = []

    def rec(ax, y_position, value, value_lb, value_ub, errorbar_style=None, **k):
      bars.append((ax, [_list(q) for q in (y_position, value, value_lb, value_ub)], errorbar_style, k))
    pl._plot_horizontal_error_bar_with_infs = rec
    kw = dict(zip(['relative_difference_column_name', 'relative_difference_lower_bound_column_name', 'relative_difference_upper_bound_column_name', 'is_significant_column_name'], cn)) if custom else {}
    o = c.call(pl.plot_effects, t, types.SimpleNamespace(primary_metric=pm), **kw)
    if where >= n:
      ok(o.raised(ValueError), 'rejected unless the primary metric is there once')
      return
    ok(o.ok and o.value is plt.axes and len(plt.axes) == 2, 'two plots')
    if not o.ok:
      return
    hr = plt.k.get('height_ratios') or plt.k.get('gridspec_kw', {}).get('height_ratios', [1, 1])
    ok(all(x > 0 for x in hr) and plt.k.get('sharex') in (True, 'all', 'col'), 'both on one scale')
    seen = set()
    for ax, q, style, k in bars:
      which = [j for j, a in enumerate(plt.axes) if a is ax]
      ok(which and len({len(x) for x in q}) == 1, 'one bar per effect')
      if not which:
        continue
      ticks = plt.axes[which[0]].calls('set_yticks')
      ok(len(ticks) == 1, 'labelled rows')
      pos, lab = [_list(x) for x in (ticks[0][0] if len(ticks[0][0]) == 2 else (ticks[0][0][0], ticks[0][1]['labels']))]
      ok(len(pos) == len(lab), 'one label per row')
      for y, d, l, u in zip(*q):
        j = [p for p in range(n) if cells['d'][p] is d]
        ok(len(j) == 1, 'the effect of a metric')
        j = j[0]
        ok(j not in seen, 'each metric once')
        seen.add(j)
        ok(cells['l'][j] is l and cells['u'][j] is u, 'with its own interval')
        ok(y in pos and lab[pos.index(y)] == names[j], 'at the row with its name')
        ok((which[0] == 0) == (j == where), 'the primary metric apart')
        ok((style is None) == sig[j] and (k.get('alpha', 1) == 1) == sig[j], 'insignificant effects are dashed')
    ok(seen == set(range(n)), 'every metric')
  return fn


for _n in (1, 2, 3, 4):
  CONTRACTS.append(Contract(f'plot_effects ({_n} metric{"s" if _n > 1 else ""})', _effects(_n), subst=_restore))


# -- runtime contract ----------------------------------------------------------
RT_BUDGET = dict(quick=15.0, thorough=180.0)


def cases(rng):
  while True:
    kind = rng.choice(['history', 'deep', 'effects', 'effects', 'effects'])
    yield dict(kind=kind, n=rng.choice([1, 2, 3, 6]), items=rng.choice([1, 3, 20]), inf=rng.choice([0.0, 0.0, 0.3, 0.7, 1.0]), none=rng.choice([0.0, 0.0, 0.3, 1.0]), far=rng.random() < 0.3, sig=rng.choice([0.0, 0.5, 1.0]), primary=rng.choice(['there'] * 6 + ['missing', 'twice']), custom=rng.random() < 0.3, ties=rng.random() < 0.3, draw=rng.random() < 0.1, seed=rng.randrange(10**6))


def check(case):
  import warnings
  import matplotlib
  matplotlib.use('Agg')
  import matplotlib.pyplot as plt
  from feedx import plotting
  warnings.simplefilter('ignore')
  try:
    return globals()['check_' + case['kind']](case, plotting, plt)
  finally:
    plt.close('all')


def _pts(line):
  import numpy as np
  return np.asarray(line.get_xdata()), np.asarray(line.get_ydata(), float)


def check_history(case, plotting, plt):
  import numpy as np
  import pandas as pd
  r = np.random.default_rng(case['seed'])
  n, w = case['items'], case['n']
  df = pd.DataFrame({'sku': np.repeat([f's{k}' for k in range(n)], w), 'week': np.tile(pd.to_datetime('2024-01-01') + pd.to_timedelta(7 * np.arange(w), unit='D'), n)})
  df['m_x'] = r.integers(1, 5, n * w).astype(float) if case['ties'] else r.gamma(1, 10, n * w)
  df = df.sample(frac=0.9 if n > 3 else 1.0, random_state=case['seed'])
  before = df.copy()
  axs = plotting.plot_metric_history(df, 'm_x', item_id_column='sku', week_start_column_name='week')
  if not df.equals(before):
    return 'the data changed'
  per = {}
  for s, x in zip(df.sku, df.m_x):
    per.setdefault(s, []).append(x)
  v = sorted(sum(x) / len(x) for x in per.values())
  k = len(v)
  tot = {}
  for d, x in zip(df.week, df.m_x):
    tot[d] = tot.get(d, 0.0) + x
  lines = [a.get_lines() for a in axs]
  if [len(x) for x in lines] != [1, 1, 1]:
    return 'one curve each'
  x, y = _pts(lines[0][0])
  if list(pd.to_datetime(x)) != sorted(tot) or not np.allclose(y, [tot[d] for d in sorted(tot)]):
    return f'weekly totals {list(y)} instead of {[tot[d] for d in sorted(tot)]}'
  x, y = _pts(lines[1][0])
  if not np.allclose(x, v) or not np.allclose(y, [(k - j) / k for j in range(k)]):
    return 'share of items that reach a value'
  x, y = _pts(lines[2][0])
  d = v[::-1]
  if not np.allclose(x, [(j + 1) / k for j in range(k)]) or not np.allclose(y, [sum(d[:j + 1]) / sum(d) for j in range(k)]):
    return 'share of the metric of the top items'
  return None


def check_deep(case, plotting, plt):
  import types
  import numpy as np
  import pandas as pd
  r = np.random.default_rng(case['seed'])
  m = case['items'] * 4
  mk = lambda mu: pd.DataFrame({'absolute_difference': r.normal(mu, 1, m), 'p_value': r.random(m)})
  a = types.SimpleNamespace(aa_simulation_results=mk(0), ab_simulation_results=mk(2), minimum_detectable_effect=2.5, simulated_false_positive_rate=0.05)
  if case['none'] == 1.0:
    a.simulated_false_positive_rate = a.aa_simulation_results = a.ab_simulation_results = None
    try:
      plotting.plot_deep_dive(a)
      return 'an unvalidated design is plotted'
    except ValueError:
      return None
  axs = plotting.plot_deep_dive(a)
  for j, t in ((1, a.aa_simulation_results), (2, a.ab_simulation_results)):
    h = [p for p in axs[j].patches]
    c, e = np.histogram(t.p_value, bins='auto')
    if not np.allclose([p.get_height() for p in h], c) or not np.allclose([p.get_x() for p in h], e[:-1]):
      return f'p-values in plot {j}'
  xs = sorted(float(l.get_xdata()[0]) for l in axs[0].get_lines())
  if xs != [0.0, 2.5]:
    return f'true effects at {xs}'
  if len(axs[0].patches) != 2:
    return 'two densities'
  for p, t in zip(axs[0].patches, (a.aa_simulation_results, a.ab_simulation_results)):
    c, e = np.histogram(t.absolute_difference, bins='auto')
    xy = p.get_xy()
    if not np.isclose(xy[:, 0].min(), e[0]) or not np.isclose(xy[:, 0].max(), e[-1]) or not np.isclose(xy[:, 1].max(), c.max()):
      return 'density of the estimates'
  return None


def check_effects(case, plotting, plt):
  import types
  import numpy as np
  import pandas as pd
  r = np.random.default_rng(case['seed'])
  n = case['n']
  names = [f'{"zyxwvu"[k]}_metric' for k in range(n)]
  p = int(r.integers(n))
  if case['primary'] == 'there':
    names[p] = 'Clicks'
  elif case['primary'] == 'twice':
    if n < 2:
      return None
    names[0], names[1] = 'clicks', 'CLICKS'
  rows = []
  for k in range(n):
    d = float(r.normal(0, 0.1)) * (50 if case['far'] and k == 0 else 1)
    lo, hi = d - abs(r.normal(0, 0.1)), d + abs(r.normal(0, 0.1))
    if r.random() < case['inf']:
      lo, hi = [(-np.inf, hi), (lo, np.inf), (-np.inf, np.inf)][int(r.integers(3))]
    if r.random() < case['none']:
      d = lo = hi = None
    rows.append((d, lo, hi, bool(r.random() < case['sig'])))
  cn = ['rel', 'lo', 'hi', 'sig'] if case['custom'] else ['relative_difference', 'relative_difference_lower_bound', 'relative_difference_upper_bound', 'is_significant']
  df = pd.DataFrame.from_records([dict(zip(cn, x)) for x in rows], index=names)
  before = df.copy()
  kw = dict(zip(['relative_difference_column_name', 'relative_difference_lower_bound_column_name', 'relative_difference_upper_bound_column_name', 'is_significant_column_name'], cn)) if case['custom'] else {}
  try:
    axs = plotting.plot_effects(df, types.SimpleNamespace(primary_metric='clicks'), **kw)
  except ValueError as e:
    return None if case['primary'] != 'there' else f'effects that can be drawn are rejected: {e}'
  if case['primary'] != 'there':
    return 'results without the primary metric are drawn'
  if not df.equals(before):
    return 'the results changed'
  if case['draw'] or n == 1:
    axs[0].figure.canvas.draw()
  for j, ax in enumerate(axs):
    want = [k for k in range(n) if (k == p) == (j == 0)]
    lab = {t.get_text(): pos for pos, t in zip(ax.get_yticks(), ax.get_yticklabels()) if t.get_text()}
    if sorted(lab) != sorted(names[k] for k in want):
      return f'rows {sorted(lab)} in plot {j}'
    segs, dots, arrows, dashed = {}, {}, {}, {}
    for c in ax.containers:
      line, caps, cols = c
      x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
      if caps:
        side = 'left' if any(q.get_marker() == matplotlib_caret('left') for q in caps) else 'right'
        for b in y:
          arrows.setdefault(b, set()).add(side)
        for q in cols:
          for s in q.get_segments():
            if s[1][0] < s[0][0] - 1e-12:
              return 'a bar of negative length'
        continue
      for a, b in zip(x, y):
        dots.setdefault(b, []).append(a)
      for q in cols:
        for s in q.get_segments():
          segs.setdefault(s[0][1], []).append((s[0][0], s[1][0]))
          ls = q.get_linestyle()[0]
          dashed[s[0][1]] = ls[1] is not None
    for k in want:
      d, lo, hi, sig = rows[k]
      pos = float(lab[names[k]])
      x = 0.0 if d is None else d
      a = lo if lo is not None and np.isfinite(lo) else x
      b = hi if hi is not None and np.isfinite(hi) else x
      if len(dots.get(pos, [])) != 1 or not np.isclose(dots[pos][0], x):
        return f'{names[k]}: effect at {dots.get(pos)} instead of {x}'
      if len(segs.get(pos, [])) != 1 or not np.allclose(segs[pos][0], (a, b)):
        return f'{names[k]}: interval {segs.get(pos)} instead of {(a, b)}'
      e = ({'left'} if lo is None or not np.isfinite(lo) else set()) | ({'right'} if hi is None or not np.isfinite(hi) else set())
      if arrows.get(pos, set()) != e:
        return f'{names[k]}: arrows {arrows.get(pos)} instead of {e}'
      if dashed.get(pos) == sig:
        return f'{names[k]}: significant {sig}, but dashed {dashed.get(pos)}'
  return None


def matplotlib_caret(side):
  from matplotlib import markers
  return markers.CARETLEFTBASE if side == 'left' else markers.CARETRIGHTBASE
