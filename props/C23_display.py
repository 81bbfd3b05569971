"""The displayed results."""
from props.common import *

ID = 'C23'
TITLE = 'The displayed results say exactly what the numbers say'
STATEMENT = (
    'The formatted results show, for every metric, the point estimate and both ends of the confidence interval of the relative and absolute effect, the yearly projection as 52 weeks times the number of items times the absolute effect, and the p-value, each with its sign and the requested precision and only if requested. '
    'A result is marked significant and coloured exactly if it is significant, green for an increase and red otherwise, and the interval is labelled with the confidence level of the analysis. '
    'Metrics without a relative effect are displayed too, and the results themselves are not changed.')
QUANT = dict(over=['inputs', 'configurations'], text='all results (any number of metrics, any values including missing and infinite ones), every choice of sections and precision')
WHY = 'Tests check column names and a few strings; swapped bounds, wrong sections or a colour that contradicts the result appear only for specific values.'
ANCHORS = dict(files=['feedx/experiment_analysis.py'], mechanism=[
    dict(name='format_experiment_analysis_results_dataframe', where='feedx/experiment_analysis.py'),
    dict(name='_format_p_value', where='feedx/experiment_analysis.py'),
    dict(name='_highlight_significant', where='feedx/experiment_analysis.py')])
LEVEL_NOTE = ('Verified on one arbitrary row of a results table of any length (all operations used act row by row); numbers inside a text are kept as terms with their format specification. '
              'Python\'s rendering of a number with a given format specification and the HTML of the styled table are assumed.')
TRUSTED = ['row-wise frame operations and Styler (recorder in props/C23_display.py)', 'Python number formatting']
ASSUMPTIONS = ['all metrics of a table were analysed with the same significance level']
CONTRACTS = []
FIELDS = ['is_significant', 'alpha', 'p_value', 'statistic', 'absolute_difference', 'absolute_difference_lower_bound', 'absolute_difference_upper_bound', 'relative_difference', 'relative_difference_lower_bound', 'relative_difference_upper_bound', 'standard_error', 'sample_size', 'degrees_of_freedom', 'control_average']
REL, ABS, PRO = 'Relative Effect Size', 'Absolute Effect Size (per item per week)', 'Projected Effect Size (whole feed, per year)'


class Col:
  """one column of a table, seen through one arbitrary row."""

  def __init__(self, v):
    self.v = v

  @property
  def values(self):
    return [self.v]

  @property
  def iloc(self):
    return [self.v]

  def to_numpy(self):
    return [self.v]

  tolist = to_list = to_numpy

  def item(self):
    return self.v

  def squeeze(self):
    return self.v

  def __iter__(self):
    return iter([self.v])

  def apply(self, f):
    return Col(f(self.v))

  map = apply

  def astype(self, t):
    if self.v is None:
      return Col(float('nan')) if t in (float, 'float', 'float64') else self
    return self

  def _b(self, o):
    return o.v if isinstance(o, Col) else o

  def __mul__(self, o):
    return Col(self.v * self._b(o))

  __rmul__ = __mul__

  def __add__(self, o):
    return Col(self.v + self._b(o))

  def __radd__(self, o):
    return Col(self._b(o) + self.v)

  def __sub__(self, o):
    return Col(self.v - self._b(o))

  def __rsub__(self, o):
    return Col(self._b(o) - self.v)

  def __truediv__(self, o):
    return Col(self.v / self._b(o))


class Row:
  """a row; two-level tables give one-element columns."""

  def __init__(self, cols, two):
    self.cols, self.two = cols, two

  def __getitem__(self, k):
    if not self.two:
      return self.cols[k]
    return Col(self.cols[k if isinstance(k, tuple) else (k, '')])

  @property
  def values(self):
    return list(self.cols.values())

  @property
  def index(self):
    return list(self.cols)

  def _len(self):
    return len(self.cols)

  def __len__(self):
    return len(self.cols)

  def get(self, k, d=None):
    return self[k] if k in self.cols else d

  def __getattr__(self, n):
    if n.startswith('__') or n in ('cols', 'two') or n not in self.cols:
      raise AttributeError(n)
    return self[n]


class Styler:

  def __init__(self, table):
    self.table, self.hidden, self.colours = table, [], None

  def hide(self, labels=None, axis='index', **k):
    assert axis in ('columns', 1)
    self.hidden += list(labels)
    return self

  def set_table_styles(self, *a, **k):
    return self

  def apply(self, f, axis=0, **k):
    assert axis in (1, 'columns')
    self.colours = f(self.table.row())
    return self


class Table:
  """a table of any length, seen through one arbitrary row."""

  def __init__(self, cols):
    self.cols = dict(cols)

  def copy(self):
    return Table(self.cols)

  def astype(self, t):
    return Table({n: Col(x).astype(t[n] if isinstance(t, dict) else t).v if not isinstance(t, dict) or n in t else x for n, x in self.cols.items()})

  def assign(self, **k):
    t = self.copy()
    for n, x in k.items():
      t[n] = x(t) if callable(x) else x
    return t

  def drop(self, columns):
    return Table({n: x for n, x in self.cols.items() if n not in columns})

  def rename(self, columns):
    return Table({(columns(n) if callable(columns) else columns.get(n, n)): x for n, x in self.cols.items()})

  def row(self):
    return Row(self.cols, bool(self.cols) and all(isinstance(k, tuple) for k in self.cols))

  def __getitem__(self, k):
    return Col(self.cols[k]) if not isinstance(k, list) else Table({x: self.cols[x] for x in k})

  def __setitem__(self, k, v):
    if isinstance(k, list):
      for a, b in zip(k, v.cols if isinstance(v, Table) else [None] * len(k)):
        self.cols[a] = v.cols[b] if isinstance(v, Table) else (v.v if isinstance(v, Col) else v)
      return
    self.cols[k] = v.v if isinstance(v, Col) else v

  def __iter__(self):
    return iter(self.cols)

  def __contains__(self, k):
    return k in self.cols

  def apply(self, f, axis=0):
    assert axis in (1, 'columns')
    return Col(f(self.row()))

  @property
  def columns(self):
    return list(self.cols)

  @columns.setter
  def columns(self, labels):
    labels = list(labels)
    assert len(labels) == len(self.cols)
    self.cols = dict(zip(labels, self.cols.values()))

  @property
  def style(self):
    return Styler(self)


def results(c):
  from props.spec import And, as_t
  cols = {}
  for f in FIELDS:
    cols[f] = c.int(f) if f == 'sample_size' else c.real(f)
  cols['is_significant'] = SVbool(c)
  c.assume(And(as_t(cols['p_value']) >= 0, as_t(cols['p_value']) <= 1, as_t(cols['alpha']) > 0, as_t(cols['alpha']) < 1, as_t(cols['sample_size']) >= 1))
  return cols


def SVbool(c):
  from engine.core import SV, B
  return SV(c.fresh('significant', B).t)


def reads(c, text, template, parts, name):
  """text is the template with the parts (value, format) filled in for its holes %."""
  import re
  from props.spec import z3, as_t
  if not isinstance(text, str):
    c.prove(z3.BoolVal(False), f'{name}: a text')
    return
  toks = re.findall('\u27e6\\d+\u27e7', text)
  c.prove(z3.BoolVal(re.sub('\u27e6\\d+\u27e7', '%', text) == template and len(toks) == len(parts)), f'{name}: text "{template}"')
  for t, (val, spec) in zip(toks, parts):
    sv, sp = c.tokens[t]
    c.prove(z3.BoolVal(sp == spec), f'{name}: format {spec}')
    c.prove(as_t(sv) == as_t(val) if as_t(sv).sort() == as_t(val).sort() else z3.ToReal(as_t(sv)) == as_t(val), f'{name}: value')


@contract(CONTRACTS, '_format_p_value')
def _p(c, v):
  from props.spec import z3, as_t
  f = v.mod('experiment_analysis')._format_p_value
  cols = results(c)
  out = f(Row(cols, False))
  p, alpha = as_t(cols['p_value']), as_t(cols['alpha'])
  tail = ' (Significant)' if c.fork(p < alpha) else ''
  if c.fork(p < z3.RealVal('0.001')):
    reads(c, out, 'p<0.001' + tail, [], 'tiny')
  elif c.fork(p < z3.RealVal('0.01')):
    reads(c, out, 'p=%' + tail, [(cols['p_value'], '.3f')], 'small')
  elif c.fork(p <= z3.RealVal('0.99')):
    reads(c, out, 'p=%' + tail, [(cols['p_value'], '.2f')], 'middle')
  else:
    reads(c, out, 'p>0.99' + tail, [], 'large')


def _format(rel, ab, pro):
  def fn(c, v):
    from props.spec import z3, as_t
    ea = v.mod('experiment_analysis')
    cols = results(c)
    none = rel and bool(c.decide(2))     # a metric without a relative effect
    if none:
      cols.update(relative_difference=None, relative_difference_lower_bound=None, relative_difference_upper_bound=None)
    table = Table(cols)
    r, a, y = [(2, 3, 0), (0, 1, 2), (5, 6, 4)][c.decide(3)]
    dflt = c.decide(2) if (r, a, y) == (2, 3, 0) and rel and ab and not pro else 0
    k = {} if dflt else dict(include_relative_effect=rel, include_absolute_effect=ab, include_yearly_projected_effect=pro, relative_effect_decimal_places=r, absolute_effect_significant_figures=a, yearly_projected_effect_decimal_places=y)
    st = ea.format_experiment_analysis_results_dataframe(table, **k)
    ok = lambda b, n: c.prove(z3.BoolVal(bool(b)), n)
    ok(list(table.cols) == FIELDS and all(table.cols[f] is cols[f] for f in FIELDS), 'the results are not changed')
    new = st.table.cols
    ok(all(isinstance(x, tuple) and len(x) == 2 for x in new), 'two levels of columns')
    shown = [x for x in new if x not in st.hidden]
    groups = ([REL] if rel else []) + ([ABS] if ab else []) + ([PRO] if pro else [])
    ok([x[0] for x in shown] == [g for g in groups for _ in range(2)] + ['P-value'], 'exactly the requested sections')
    D = lambda n: cols[f'absolute_difference{n}']
    year = lambda z: 52 * cols['sample_size'] * z
    for g, spec, parts in ((REL, f'+.{r}%', [cols[f'relative_difference{n}'] for n in ('', '_lower_bound', '_upper_bound')]),
                           (ABS, f'+,.{a}g', [D(n) for n in ('', '_lower_bound', '_upper_bound')]),
                           (PRO, f'+,.{y}f', [year(D(n)) for n in ('', '_lower_bound', '_upper_bound')])):
      if g not in groups:
        continue
      labels = [x for x in shown if x[0] == g]
      ok(labels[0][1] == 'Point Estimate', f'{g}: point estimate first')
      reads(c, labels[1][1], '% CI', [(1 - cols['alpha'], '.0%')], f'{g}: confidence level')
      if g == REL and none:
        ok(new[labels[0]] == '+nan%' and new[labels[1]] == '+nan% to +nan%', 'no relative effect is displayed as nan')
        continue
      reads(c, new[labels[0]], '%', [(parts[0], spec)], f'{g}: point estimate')
      reads(c, new[labels[1]], '% to %', [(parts[1], spec), (parts[2], spec)], f'{g}: interval')
    ok(isinstance(new[('P-value', '')], str) and new[('P-value', '')] == ea._format_p_value(Row(cols, False)), 'the p-value')
    col = st.colours
    ok(col is not None and len(col) == len(new) and len(set(col)) == 1, 'one colour for the row')
    if c.fork(as_t(cols['is_significant'])):
      if c.fork(as_t(D('')) > 0):
        ok(col[0] == 'background-color:lightgreen', 'a significant increase is green')
      else:
        ok(col[0] == 'background-color:pink', 'a significant decrease is red')
    else:
      ok(col[0] == 'color:grey', 'not significant is grey')
  return fn


for _r in (True, False):
  for _a in (True, False):
    for _y in (True, False):
      CONTRACTS.append(Contract(f'format_experiment_analysis_results_dataframe ({int(_r)}{int(_a)}{int(_y)})', _format(_r, _a, _y)))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  import math
  while True:
    rows = []
    for j in range(rng.choice([1, 1, 2, 4])):
      d = rng.choice([0.0, rng.gauss(0, 1), rng.gauss(0, 1e6), rng.gauss(0, 1e-5), -3.0])
      w = abs(rng.gauss(0, 1)) * rng.choice([1, 1e4, 1e-4])
      none = rng.random() < 0.3
      p = rng.choice([0.0, 1.0, 0.001, 0.01, 0.99, 0.0005, 0.005, 0.999, rng.random(), rng.random() / 20])
      rows.append(dict(d=d, lo=d - w, hi=rng.choice([d + w, d + w, math.inf]), r=None if none else rng.gauss(0, 1), rlo=None if none else -0.5, rhi=None if none else rng.choice([0.7, math.inf]), p=p, n=rng.choice([10, 1000, 123456])))
    yield dict(rows=rows, alpha=rng.choice([0.05, 0.01, 0.1, 0.2]), rel=rng.random() < 0.7, ab=rng.random() < 0.7, pro=rng.random() < 0.5, r=rng.choice([0, 2, 4]), a=rng.choice([1, 3, 5]), y=rng.choice([0, 2]))


def check(case):
  import warnings
  import pandas as pd
  from feedx import experiment_analysis as ea
  warnings.simplefilter('ignore')
  rows = []
  for j, x in enumerate(case['rows']):
    rows.append(dict(zip(FIELDS, [x['p'] < case['alpha'], case['alpha'], x['p'], 1.5, x['d'], x['lo'], x['hi'], x['r'], x['rlo'], x['rhi'], 0.3, x['n'], 12.0, 4.0]), metric=f'm{j}'))
  df = pd.DataFrame.from_records(rows).set_index('metric')
  before = df.copy()
  out = ea.format_experiment_analysis_results_dataframe(df, include_relative_effect=case['rel'], include_absolute_effect=case['ab'], include_yearly_projected_effect=case['pro'], relative_effect_decimal_places=case['r'], absolute_effect_significant_figures=case['a'], yearly_projected_effect_decimal_places=case['y'])
  if not df.equals(before) or not (df.dtypes == before.dtypes).all() or list(df.columns) != list(before.columns):
    return 'the results changed'
  ctx = out._compute() if hasattr(out, '_compute') else out
  data = out.data
  visible = [c for k, c in enumerate(data.columns) if k not in out.hidden_columns]
  ci = f'{1 - case["alpha"]:.0%} CI'
  want = {}
  for j, x in enumerate(case['rows']):
    nan = float('nan')
    f = lambda t: nan if t is None else t
    p, q = '%', f'+,.{case["a"]}g'
    if case['rel']:
      s = f'+.{case["r"]}%'
      want[(j, REL, 'Point Estimate')] = format(f(x['r']), s)
      want[(j, REL, ci)] = f'{format(f(x["rlo"]), s)} to {format(f(x["rhi"]), s)}'
    if case['ab']:
      want[(j, ABS, 'Point Estimate')] = format(x['d'], q)
      want[(j, ABS, ci)] = f'{format(x["lo"], q)} to {format(x["hi"], q)}'
    if case['pro']:
      s = f'+,.{case["y"]}f'
      m = 52 * x['n']
      want[(j, PRO, 'Point Estimate')] = format(m * x['d'], s)
      want[(j, PRO, ci)] = f'{format(m * x["lo"], s)} to {format(m * x["hi"], s)}'
    t = 'p<0.001' if x['p'] < 0.001 else f'p={x["p"]:.3f}' if x['p'] < 0.01 else f'p={x["p"]:.2f}' if x['p'] <= 0.99 else 'p>0.99'
    want[(j, 'P-value', '')] = t + (' (Significant)' if x['p'] < case['alpha'] else '')
  if set(visible) != {(a, b) for _, a, b in want}:
    return f'columns {visible}'
  for (j, a, b), t in want.items():
    if data.iloc[j][(a, b)] != t:
      return f'row {j} {a} {b}: "{data.iloc[j][(a, b)]}" instead of "{t}"'
  n = len(data.columns)
  for j, x in enumerate(case['rows']):
    sig = x['p'] < case['alpha']
    e = [('background-color', 'lightgreen' if x['d'] > 0 else 'pink')] if sig else [('color', 'grey')]
    for k in range(n):
      if k in out.hidden_columns:
        continue
      got = [tuple(z) for z in ctx.ctx.get((j, k), [])]
      if got != e:
        return f'row {j}: style {got} instead of {e}'
