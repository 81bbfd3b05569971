"""The plot of a metric over time shows the groups, their difference and its uncertainty."""
from props.common import *
from props.C17_pipelines import _Steps
from props.C29_plots import Ax as _Ax, Plt as _Plt

ID = 'C30'
TITLE = 'Metrics over time are drawn per date and group, adjusted with pretest data only'
STATEMENT = (
    'The plot of a metric over time draws, for every date, the average of the treated and of the control items and their difference, with the confidence interval of the significance level of the design from the standard errors of the two averages. '
    'On request each date is adjusted separately, with the pretest total of each item as covariate, which requires pretest data. '
    'Lines and shaded spans mark the start of the experiment, the washout periods and the crossover of the design, whatever the columns are called, and the data is not changed.')
QUANT = dict(over=['inputs', 'configurations'], text='every table, any number of items and dates, every design, column names')
WHY = 'Tests look at two small examples of the adjustment and only check that a figure is returned.'
ANCHORS = dict(files=['feedx/plotting.py'], mechanism=[
    dict(name='plot_metric_over_time', where='feedx/plotting.py'),
    dict(name='_add_cuped_adjusted_metric_per_date', where='feedx/plotting.py')])
LEVEL_NOTE = ('Any number of rows, items and dates; the loop over dates by a loop invariant: the dates visited so far hold their adjusted values, all others are arbitrary. '
              'Modular over the adjustment (C02). What matplotlib does with the arguments is recorded; the runtime contract reads the drawn lines.')
TRUSTED = ['pandas pivot_table, map, label selection (engine/pdstub.py)', 'matplotlib (recorder in props/C29_plots.py)', 'scipy.stats.norm']
ASSUMPTIONS = ['one row per item and date', 'both groups have items', 'no missing values', 'floats as reals', 'standard error: population standard deviation over the root of the number of items']
CONTRACTS = []


class Plt(_Plt):

  def subplots(self, nrows=1, ncols=1, **k):
    self.axes = [Ax() for _ in range(nrows * ncols)]
    return Ax(), self.axes


class Ax(_Ax):

  def __getattr__(self, n):
    if n == 'get_legend_handles_labels':
      from engine import core

      def f():
        ls = [k['label'] for _, a, k, r in self.log if 'label' in k] + [e[2]['label'] for e in core.ctx().events if e[0] == 'plot_data' and e[2].get('ax') is self and e[2].get('label')]
        return [object() for _ in ls], ls
      return f
    return _Ax.__getattr__(self, n)


def _restore(v):
  pl, st = v.mod('plotting'), v.mod('statistics')
  return {**{('plotting', n): getattr(pl, n) for n in ('plt', '_add_cuped_adjusted_metric_per_date')}, ('statistics', 'apply_cuped_adjustment'): st.apply_cuped_adjustment}


def table(c, kind='date'):
  """item x date table with a phase and an arm."""
  from props.spec import z3, as_t, SV
  from props.frames import frame
  df = frame(c, {'day': 'date', 'sku': 'obj', 'm_x': 'real', 'other': 'real'})
  I, B = z3.IntSort(), z3.BoolSort()
  from engine.core import sym_ite
  ph, arm = z3.Function('phase', I, I), z3.Function('arm', I, B)
  names = ['pretest', 'test', 'washout_1', 'test_1', 'washout_2', 'test_2']

  def phase(i):
    out = names[-1]
    for k, p in enumerate(names[:-1]):
      out = sym_ite(SV(ph(i[1][0]) == k), p, out)
    return out
  df.cols['phase'] = phase
  df.cols['arm'] = lambda i: sym_ite(SV(arm(i[1][0])), 1, 0)
  return df, (lambda i: ph(i[1][0])), (lambda i: arm(i[1][0])), names


@contract(CONTRACTS, '_add_cuped_adjusted_metric_per_date', subst=_restore)
def _cuped(c, v):
  from props.spec import z3, as_t, And, Or, Not, Implies, SV, Rt
  from props.frames import same
  from props.C21_analysis_samples import _vector
  from engine import pdstub, npstub
  pl, st = v.mod('plotting'), v.mod('statistics')
  ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
  df, ph, arm, names = table(c)
  cs, d0 = dict(df.cols), df.dom
  name = [None, 'm_x', 'adj'][c.decide(3)]
  label = name or 'm_x_cuped_adjusted'
  pre = d0.filter(lambda i: SV(ph(i) == 0))
  steps = _Steps(st)
  A = z3.Function('adjusted', z3.IntSort(), z3.RealSort())
  steps.put('apply_cuped_adjustment', lambda args: npstub.Arr(npstub.as_arr(args['metric']).dims, lambda i: SV(A(i[1][0]))))
  loops = []

  def rule(arr):
    ok(not loops and arr.ndim == 1, 'one loop over the dates')
    d = arr.dims[0]
    i = d0.skolem('row')
    c.prove(d.exists(lambda e: SV(as_t(arr.fn(e)) == as_t(cs['day'](i)))), 'every date is visited')
    ok(label in df.cols, 'the column exists')
    H = z3.Function('before', z3.IntSort(), z3.RealSort())
    df.cols[label] = lambda i: SV(H(i[1][0]))
    D = arr.fn(d.skolem('date'))
    n = len(steps.log)
    yield D
    g = df.cols[label]
    calls = steps.log[n:]
    ok(len(calls) == 1, 'one adjustment per date')
    x = calls[0][1]
    rows = d0.filter(lambda i: SV(as_t(cs['day'](i)) == as_t(D)))
    _vector(c, x['metric'], rows, lambda i: as_t(cs['m_x'](i)), 'adjusted metric')
    j = rows.skolem('j')
    cov = npstub.as_arr(x['covariate'])
    ok(cov.dims[0].same_rows(rows), 'one covariate per item')
    mine = pre.filter(lambda e: SV(as_t(cs['sku'](e)) == as_t(cs['sku'](j))))
    some = mine.exists(lambda e: SV(z3.BoolVal(True)))
    w = cov.fn(j)
    for _, t, at in c.data.get('lookups', []):
      e = at(j)
      # the row found for the item, and the item's own group
      c.soft(Implies(some, t.dom.mem(e)))
      c.soft(Implies(some, as_t(cs['sku'](e)) == as_t(cs['sku'](j))))
    if c.fork(some):
      c.prove(Not(pdstub.isnull(w)), 'items with pretest data have a covariate')
      c.prove(Rt(w) == mine.sum(lambda e: cs['m_x'](e)), 'covariate: the pretest total of the item')
    else:
      c.prove(pdstub.isnull(w), 'items without pretest data have none')
    c.prove(Rt(x['trimming_quantile']) == 0, 'no trimming')
    r = d0.skolem('r')
    mine_ = as_t(cs['day'](r)) == as_t(D)
    c.prove(Implies(mine_, as_t(g(r)) == A(r[1][0])), 'rows of the date get their adjusted value')
    c.prove(Implies(Not(mine_), as_t(g(r)) == H(r[1][0])), 'rows of other dates keep theirs')
    df.cols[label] = lambda i: SV(A(i[1][0]))
    loops.append(1)
  c.data['loop_rule'] = rule
  o = c.call(pl._add_cuped_adjusted_metric_per_date, df, metric_column='m_x', item_id_column='sku', date_column='day', time_period_column='phase', new_metric_column_name=name)
  has = pre.exists(lambda e: SV(z3.BoolVal(True)))
  if not o.ok:
    ok(o.raised(ValueError), 'rejected with a ValueError')
    c.prove(Not(has), 'rejected only without pretest data')
    return
  c.prove(has, 'needs pretest data')
  out = o.value
  ok(len(loops) == 1 and out.dom.same_rows(d0), 'all rows')
  ok(sorted(map(str, out.cols)) == sorted({*map(str, cs), label}), 'one column is added')
  i = d0.skolem('i')
  for k in cs:
    if k != label and k in out.cols:
      same(c, out.cols[k](i), cs[k](i), f'{k} unchanged')
  c.prove(as_t(out.cols[label](i)) == A(i[1][0]), 'adjusted values')


def _plot(cross, cuped):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, Not, Implies, SV, Rt
    from props.frames import same, snap, unchanged
    from props.C19_time_periods import _design
    from engine import pdstub, npstub, libstub
    pl = v.mod('plotting')
    plt = pl.plt = Plt()
    ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
    df, ph, arm, names = table(c)
    cs, d0 = dict(df.cols), df.dom
    s0 = snap(df)
    alpha = c.real('alpha')
    c.assume(And(alpha.t > 0, alpha.t < 1))
    pre, run, wash = c.int('pretest'), c.int('runtime'), c.int('washout')
    d = _design(v, is_crossover=cross, alpha=alpha, pretest_weeks=pre, runtime_weeks=run, crossover_washout_weeks=wash if cross else None)
    if cross:
      half = c.int('half')
      c.assume(And(half.t >= 1, wash.t >= 0, run.t == 2 * wash.t + 2 * half.t))
    first = d0.filter(lambda i: SV(Or(*[ph(i) == names.index(p) for p in ('test', 'test_1', 'washout_1')])))
    c.assume(first.exists(lambda e: SV(z3.BoolVal(True))))
    for g in (0, 1):
      c.assume(d0.exists(lambda e: SV(arm(e) == bool(g))))
    A = z3.Function('adjusted', z3.IntSort(), z3.RealSort())
    calls = []

    def adjust(data, **k):
      calls.append((data, dict(data.cols), k))
      out = data.copy()
      out.cols[k['new_metric_column_name'] or k['metric_column'] + '_cuped_adjusted'] = lambda i: SV(A(i[1][0]))
      return out
    pl._add_cuped_adjusted_metric_per_date = adjust
    dflt = {} if cuped and c.decide(2) else dict(apply_cuped_adjustment=cuped)
    out = pl.plot_metric_over_time(df, metric_column='m_x', item_id_column='sku', time_period_column='phase', treatment_assignment_column='arm', date_column='day', design=d, **dflt)
    unchanged(c, df, s0, 'data')
    axs = plt.axes
    ok(len(axs) == 2 and list(out[1]) == axs, 'two plots')
    ok(len(calls) == (1 if cuped else 0), 'adjusted on request')
    i = d0.skolem('i')
    if cuped:
      data, cols, k = calls[0]
      ok(data is not df and data.dom.same_set(d0) and sorted(cols) == sorted(cs), 'all rows are adjusted')
      for n in cs:
        same(c, cols[n](i), cs[n](i), f'{n}: given as it is')
      ok((k['metric_column'], k['item_id_column'], k['date_column'], k['time_period_column']) == ('m_x', 'sku', 'day', 'phase'), 'the columns of the data')
    y = (lambda i: SV(A(i[1][0]))) if cuped else cs['m_x']
    ev = [(e[1], e[2]) for e in c.events if e[0] == 'plot_data']
    ok(len(ev) == 2 and ev[0][1].get('ax') is axs[0] and ev[1][1].get('ax') is axs[1], 'averages above, difference below')
    vals, delta = ev[0][0], ev[1][0]
    ok(sorted(map(str, vals.cols)) == ['Control', 'Treatment'], 'both groups')
    e = vals.dom.skolem('date')
    day = as_t(vals.index.levels[0](e))
    c.prove(d0.exists(lambda q: SV(as_t(cs['day'](q)) == day)), 'a date of the data')
    r = d0.skolem('r')
    c.prove(vals.dom.exists(lambda q: SV(as_t(vals.index.levels[0](q)) == as_t(cs['day'](r)))), 'every date')
    stat = {}
    for g, name in ((1, 'Treatment'), (0, 'Control')):
      rows = d0.filter(lambda i: SV(And(as_t(cs['day'](i)) == day, arm(i) == bool(g))))
      c.assume(rows.card() >= 1)
      c.assume(rows.exists(lambda e: SV(z3.BoolVal(True))))
      vec = npstub.Arr((rows,), y)
      m, n = npstub.mean(vec), z3.ToReal(rows.card())
      w = vals.cols[name](e)
      c.prove(Not(pdstub.isnull(w)), f'{name}: drawn')
      c.prove(Rt(w) == Rt(m), f'{name}: average of the items')
      stat[name] = (m, npstub.std(vec), n)
    w = delta.fn(e)
    c.prove(Rt(w) == Rt(stat['Treatment'][0]) - Rt(stat['Control'][0]), 'difference of the averages')
    f = axs[1].calls('fill_between')
    ok(len(f) == 1 and len(f[0][0]) == 3, 'one band')
    x, lo, hi = f[0][0]
    x = npstub.as_arr(x)
    ok(x.dims[0].same_rows(vals.dom), 'the band at every date')
    c.prove(as_t(x.fn(e)) == day, 'the dates')
    get = lambda q: q.fn(e)
    z = v.mod('plotting').stats.norm.ppf(1.0 - alpha / 2)
    se2 = sum(Rt(s) * Rt(s) / n for _, s, n in stat.values())
    L, H, D = Rt(get(lo)), Rt(get(hi)), Rt(w)
    c.prove(L + H == 2 * D, 'the band is centred on the difference')
    half_ = H - D
    c.lemma(Rt(z) >= 0, 'positive quantile')
    c.prove(half_ * half_ == Rt(z) * Rt(z) * se2, 'width of the band')
    c.prove(half_ >= 0, 'lower and upper end')
    # marks
    start = as_t(df.loc[df['phase'].isin(['test', 'test_1', 'washout_1']), 'day'].min())
    W = lambda n: start + 7 * as_t(n)
    T = lambda q: as_t(q)
    for ax in axs:
      xl = ax.calls('set_xlim')
      ok(len(xl) == 1, 'limits')
      c.prove(And(T(xl[0][0][0]) == start - 7 * pre.t, T(xl[0][0][1]) == start + 7 * run.t), 'from the pretest to the end')
      lines, spans = ax.calls('axvline'), ax.calls('axvspan')
      want = [start] + ([W(wash.t + half.t)] if cross else [])
      ok(len(lines) == len(want), 'marked dates')
      lines = [(a[0] if a else k['x'], k) for a, k in lines]
      for k, t in enumerate(want):
        lab = ('Experiment Start', 'Crossover')[k]
        m = [q for q, kw in lines if kw.get('label') == lab]
        ok(len(m) == 1, lab)
        c.prove(T(m[0]) == t, f'{lab}: date')
      ok(len(spans) == (2 if cross else 0), 'washout periods')
      if cross:
        for (a, k), t0 in zip(spans, (start, W(wash.t + half.t))):
          c.prove(And(T(a[0]) == t0, T(a[1]) == t0 + 7 * wash.t), 'washout period')
  return fn


for _c in (False, True):
  for _a in (True, False):
    CONTRACTS.append(Contract(f'plot_metric_over_time ({"crossover" if _c else "regular"}{", adjusted" if _a else ""})', _plot(_c, _a), subst=_restore, definedness='assume'))


# -- runtime contract -----------------------------------------------------------------
RT_BUDGET = dict(quick=12.0, thorough=180.0)


def cases(rng):
  while True:
    cross = rng.random() < 0.6
    wash = rng.choice([0, 1, 2]) if cross else 0
    yield dict(kind=rng.choice(['plot', 'plot', 'adjust']), cross=cross, wash=wash, pre=rng.choice([0, 1, 1, 3]), run=2 * wash + 2 * rng.choice([1, 2, 3]), items=rng.choice([4, 5, 9, 30]), alpha=rng.choice([0.05, 0.05, 0.1, 0.01, 0.2]), adjust=rng.choice([True, True, False, None]), custom=rng.random() < 0.5, daily=rng.random() < 0.2, name=rng.random() < 0.5, shuffle=rng.random() < 0.5, extra=rng.random() < 0.3, seed=rng.randrange(10**6))


def check(case):
  import warnings
  import matplotlib
  matplotlib.use('Agg')
  import matplotlib.pyplot as plt
  from feedx import plotting
  warnings.simplefilter('ignore')
  try:
    return _check(case, plotting)
  finally:
    plt.close('all')


def _check(case, plotting):
  import math
  import types
  import numpy as np
  import pandas as pd
  from statistics import NormalDist
  from feedx import statistics as st
  from props.C19_time_periods import label
  r = np.random.default_rng(case['seed'])
  n = case['items']
  per = 7 if case['daily'] else 1
  W = range(-case['pre'] - (1 if case['extra'] else 0), case['run'])
  t0 = pd.Timestamp('2024-01-01')
  days = [t0 + pd.Timedelta(days=7 * w + (d if per == 7 else 0)) for w in W for d in range(per)]
  phases = [label(w, case) or 'before' for w in W for _ in range(per)]
  C = ('day', 'sku', 'm_x', 'phase', 'arm') if case['custom'] else ('date', 'item_id', 'clicks', 'time_period', 'treatment_assignment')
  arm = np.r_[0, 0, 1, 1, r.integers(0, 2, n - 4)]
  r.shuffle(arm)
  level = r.gamma(2, 10, n)
  rows = [(d, f's{k}', float(level[k] * r.gamma(4, 0.25)), p, int(arm[k])) for k in range(n) for d, p in zip(days, phases)]
  df = pd.DataFrame(rows, columns=C)
  df['other'] = r.random(len(df))
  if case['shuffle']:
    df = df.sample(frac=1.0, random_state=case['seed'])
  before = df.copy()
  D = {d: [q for q in rows if q[0] == d] for d in days}
  tot = {}
  for d, s, x, p, a in rows:
    if p == 'pretest':
      tot[s] = tot.get(s, 0.0) + x
  adj = {}
  if case['pre']:
    for d, q in D.items():
      y = st.apply_cuped_adjustment(np.array([x[2] for x in q]), np.array([tot[x[1]] for x in q]), 0.0)
      adj.update({(d, x[1]): v for x, v in zip(q, y)})
  if case['kind'] == 'adjust':
    try:
      out = plotting._add_cuped_adjusted_metric_per_date(df.copy(), metric_column=C[2], item_id_column=C[1], date_column=C[0], time_period_column=C[3], **(dict(new_metric_column_name='adj') if case['name'] else {}))
    except ValueError as e:
      return None if not case['pre'] else f'rejected with pretest data: {e}'
    if not case['pre']:
      return 'adjusted without pretest data'
    c = 'adj' if case['name'] else C[2] + '_cuped_adjusted'
    if not out.drop(columns=c).equals(before):
      return 'other columns changed'
    for d, s, v in zip(out[C[0]], out[C[1]], out[c]):
      if not close(v, adj[d, s], 1e-8, 1e-7):
        return f'{s} on {d}: {v} instead of {adj[d, s]}'
    return None
  design = types.SimpleNamespace(is_crossover=case['cross'], crossover_washout_weeks=case['wash'] if case['cross'] else None, pretest_weeks=case['pre'], runtime_weeks=case['run'], alpha=case['alpha'])
  kw = {} if case['adjust'] is None else dict(apply_cuped_adjustment=case['adjust'])
  use = case['adjust'] is not False
  try:
    out = plotting.plot_metric_over_time(df, metric_column=C[2], item_id_column=C[1], time_period_column=C[3], treatment_assignment_column=C[4], date_column=C[0], design=design, **kw)
  except ValueError as e:
    return None if use and not case['pre'] else f'rejected: {e}'
  if use and not case['pre']:
    return 'adjusted without pretest data'
  if not df.equals(before):
    return 'the data changed'
  axs = out[1]
  val = {g: [np.array([adj[d, x[1]] if use else x[2] for x in D[d] if x[4] == g]) for d in days] for g in (0, 1)}
  mean = {g: np.array([v.mean() for v in val[g]]) for g in val}
  delta = mean[1] - mean[0]
  z = NormalDist().inv_cdf(1 - case['alpha'] / 2)
  half = z * np.sqrt(sum(np.array([v.var() / len(v) for v in val[g]]) for g in val))
  marks = {'Experiment Start': t0}
  spans = []
  if case['cross']:
    p = (case['run'] - 2 * case['wash']) // 2
    w = pd.Timedelta(weeks=1)
    marks['Crossover'] = t0 + (case['wash'] + p) * w
    spans = [(t0, t0 + case['wash'] * w), (marks['Crossover'], marks['Crossover'] + case['wash'] * w)]
  handles, labels = axs[0].get_legend_handles_labels()
  for j, ax in enumerate(axs):
    lines = [l for l in ax.get_lines() if len(l.get_xdata()) == len(days) and len(days) > 2]
    if len(days) <= 2:
      return None
    want = [('0', mean[0]), ('1', mean[1])] if j == 0 else [('d', delta)]
    if len(lines) != len(want):
      return f'{len(lines)} curves in plot {j}'
    # pandas draws the columns in order: control first
    byname = sorted(lines, key=lambda l: 'Treatment' in str(l.get_label()))
    for (nm, w), l in zip(want, byname):
      if not np.allclose(np.asarray(l.get_ydata(), float), w, rtol=1e-7, atol=1e-7):
        return f'curve {nm} in plot {j}: {list(l.get_ydata())} instead of {list(w)}'
      if not np.allclose(np.asarray(l.get_xdata(orig=False), float), [float(ax.convert_xunits(q)) for q in days]):
        return f'dates in plot {j}'
    got = {}
    for l in ax.get_lines():
      if l.get_label() in marks:
        got[l.get_label()] = float(ax.convert_xunits(l.get_xdata(orig=True)[0]))
    if sorted(got) != sorted(marks) or any(not close(got[q], ax.convert_xunits(marks[q])) for q in got):
      return f'marks {got} instead of {marks}'
    if len(ax.patches) != len(spans):
      return f'{len(ax.patches)} shaded spans'
    conv = lambda t: float(ax.convert_xunits(t))
    for q, (a, b) in zip(ax.patches, spans):
      x0, x1 = q.get_x(), q.get_x() + q.get_width()
      if not (close(x0, conv(a)) and close(x1, conv(b))):
        return f'shaded from {x0} to {x1} instead of {conv(a)} to {conv(b)}'
    lim = ax.get_xlim()
    end = (conv(t0 - pd.Timedelta(weeks=case['pre'])), conv(t0 + pd.Timedelta(weeks=case['run'])))
    if not (close(lim[0], end[0]) and close(lim[1], end[1])):
      return f'limits {lim} instead of {end}'
  band = [q for q in axs[1].collections]
  if len(band) != 1:
    return 'one band'
  v = band[0].get_paths()[0].vertices
  xs = {}
  for a, b in v:
    xs.setdefault(round(a, 6), []).append(b)
  if len(xs) != len(days):
    return f'the band has {len(xs)} dates'
  for k, a in enumerate(sorted(xs)):
    if not (close(min(xs[a]), delta[k] - half[k], 1e-6, 1e-6) and close(max(xs[a]), delta[k] + half[k], 1e-6, 1e-6)):
      return f'band {min(xs[a])} to {max(xs[a])} instead of {delta[k] - half[k]} to {delta[k] + half[k]}'
  return None
