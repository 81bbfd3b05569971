"""The minimum detectable effect of a design is that of the experiment it describes."""
from props.common import *
from props.C17_pipelines import _Steps

ID = 'C26'
TITLE = 'The estimated sensitivity of a design is that of the experiment it describes'
STATEMENT = (
    'For every possible start week the historical data is pivoted and pre-trimmed as in the experiment, and the average and variance are those of the samples the analysis would compare: the adjusted and trimmed test averages of the items, or in a crossover their differences between the periods, including the spread caused by a difference of the periods when the analysis does not align them. '
    'Averages and variances are averaged over the start weeks, and the minimum detectable effect is the one for the design\'s power and significance level, two-sided, at the design\'s number of items; the relative effect is its ratio to the average. '
    'Data with another number of items than the design expects is rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every design and historical table, every number of items')
WHY = 'Tests compare five fixed designs with stored numbers; trimmed crossovers, adjusted designs and several start weeks are combinations they do not reach.'
ANCHORS = dict(files=['feedx/experiment_simulations.py'], mechanism=[
    dict(name='estimate_minimum_detectable_effect', where='feedx/experiment_simulations.py'),
    dict(name='_estimate_primary_metric_stats', where='feedx/experiment_simulations.py'),
    dict(name='_get_pivoted_and_trimmed_historical_data', where='feedx/experiment_simulations.py')])
LEVEL_NOTE = ('Any number of items and values, every design; modular over the contracts of the pivot (C20), pre-trimming (C10), adjustment (C02), trimming (C01) and the effect sizes (C07). '
              'Averaging over start weeks is checked for one to two start weeks. That the formula for the variance is the one the analysis sees is checked against the samples of the analysis by the runtime contract.')
TRUSTED = ['pandas column selection and assignment (engine/pdstub.py)']
BOUNDED = ['averaging over one to two start weeks']
ASSUMPTIONS = ['the average of the metric is not zero (for the relative effect)', 'floats as reals']
CONTRACTS = []
RT_BUDGET = dict(quick=20.0, thorough=180.0)


def _restore(v):
  from props.spec import TrimmedSpec
  st, ea, dp = v.mod('statistics'), v.mod('experiment_analysis'), v.mod('data_preparation')
  out = {('statistics', n): getattr(st, n) for n in ('apply_cuped_adjustment', 'yuens_t_test_ind_minimum_detectable_effect', 'yuens_t_test_paired_minimum_detectable_effect')}
  return {**out, ('statistics', 'TrimmedArray'): TrimmedSpec, ('experiment_analysis', 'pivot_time_assignment'): ea.pivot_time_assignment, ('data_preparation', 'trim_outliers'): dp.trim_outliers}


def analysis(c, v, cross, pre, weeks=1):
  """a simulation over `weeks` start weeks whose callees are recorders."""
  from props.spec import z3, as_t, And, Dom, SV, npstub
  from props.frames import frame
  from props.C19_time_periods import _design
  from engine import pdstub
  es, ea, dp, st = v.mod('experiment_simulations'), v.mod('experiment_analysis'), v.mod('data_preparation'), v.mod('statistics')
  R_, I_, B_ = z3.RealSort(), z3.IntSort(), z3.BoolSort()
  q, alpha, power, top, bot = [c.real(n) for n in ('q', 'alpha', 'power', 'top', 'bottom')]
  c.assume(And(q.t >= 0, q.t < 0.5))
  n0, n1, n2 = c.int('before'), c.int('after_pre'), c.int('after_post')
  c.assume(And(n1.t >= 2, n0.t >= n1.t))
  d = _design(v, is_crossover=cross, pretest_weeks=(c.int('pretest') if pre else 0), post_trim_percentile=q, alpha=alpha, power=power, pre_trim_top_percentile=top, pre_trim_bottom_percentile=bot,
              primary_metric='x', n_items_before_trimming=n0, n_items_after_pre_trim=n1, n_items_after_post_trim=n2)
  if pre:
    c.assume(d.pretest_weeks.t >= 1)
  rng, hist = object(), object()
  a = object.__new__(es.SimulationAnalysis)
  a.__dict__.update(design=d, historical_data=hist, item_id_column='item', week_id_column='wk', time_period_column='tp', treatment_column='grp', rng=rng, minimum_start_week_id=3, maximum_start_week_id=2 + weeks,
                    minimum_detectable_effect=None, relative_minimum_detectable_effect=None, primary_metric_average=None, primary_metric_standard_deviation=None)
  ps = (['pretest'] if pre else []) + (['test_1', 'test_2', 'washout_1'] if cross else ['test'])
  s1, s2, s3 = _Steps(ea), _Steps(dp), _Steps(st)

  def pivot(args):
    k = len(s1.log)
    df = frame(c, {**{('x', p): 'real' for p in ps}, 'item': 'obj'}, name=f'w{k}')
    df._index = pdstub.Index(df.dom, [df.cols.pop('item')], ['item'])
    return df

  def trim(args):
    k = len(s2.log)
    df = args['data']
    f = z3.Function(f'kept{k}', I_, B_)
    dom = df.dom.filter(lambda i: SV(f(i[1][0])))
    return pdstub.DataFrame._make(dom, df.cols, df.space, df._index_on(dom))

  def cuped(args):
    y = npstub.as_arr(args['metric'])
    f = z3.Function(f'adjusted{len(s3.log)}', I_, R_)
    return npstub.Arr(y.dims, lambda i: SV(f(i[1][0])))
  s1.put('pivot_time_assignment', pivot)
  s2.put('trim_outliers', trim)
  s3.put('apply_cuped_adjustment', cuped)
  for k in ('ind', 'paired'):
    s3.put(f'yuens_t_test_{k}_minimum_detectable_effect', lambda args: c.real('mde'))
  return a, d, s1, s2, s3


def sample_stats(c, d, df, steps, k):
  """(average, variance, number of samples) the analysis would see, for the pivoted and pre-trimmed table df."""
  from props.spec import z3, as_t, TrimmedSpec, npstub, SV
  col = lambda p: npstub.Arr((df.dom,), df.cols[('x', p)])
  q = d.post_trim_percentile
  if d.is_crossover:
    y1, y2 = col('test_1'), col('test_2')
    T = TrimmedSpec(npstub.stack([y1 - y2, y1, y2]), q)
    m, va = T.mean(), T.var(ddof=1)
    extra = (m.fn(1) - m.fn(2)) * (m.fn(1) - m.fn(2))
    var = va.fn(0) + extra if c.fork(q.t > 0) else va.fn(0)
    return (m.fn(1) + m.fn(2)) / 2, var, T.m
  if not isinstance(d.pretest_weeks, int):
    a, r = steps.calls('apply_cuped_adjustment')[k]
    y = r
  else:
    y = col('test')
  T = TrimmedSpec(y, q)
  return T.mean(), T.var(ddof=1), T.m


def _mde(cross, pre, weeks):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, npstub, Rt
    from props.C21_analysis_samples import _vector
    a, d, s1, s2, s3 = analysis(c, v, cross, pre, weeks)
    o = c.call(a.estimate_minimum_detectable_effect)
    ok = lambda b, n: c.prove(z3.BoolVal(bool(b)), n)
    tables = [r for _, r in s1.calls('pivot_time_assignment')]
    kept = [r for _, r in s2.calls('trim_outliers')] if pre else tables
    n0, n1, n2 = [as_t(getattr(d, f'n_items_{x}')) for x in ('before_trimming', 'after_pre_trim', 'after_post_trim')]
    if not o.ok:
      ok(o.raised(RuntimeError), 'rejected with a RuntimeError')
      bad = [t.dom.card() != n0 for t in tables] + [t.dom.card() != n1 for t in kept]
      if len(kept) == len(tables):
        ys = [sample_stats(c, d, kept[-1], s3, len(kept) - 1)[2]] if cross or not pre or len(s3.calls('apply_cuped_adjustment')) == len(kept) else []
        bad += [as_t(y) != n2 for y in ys]
      c.prove(Or(*bad), 'rejected only if a number of items is not that of the design')
      ok(all(getattr(a, f) is None for f in ('minimum_detectable_effect', 'primary_metric_average')), 'nothing is stored')
      return
    ok([x['start_week_id'] for x, _ in s1.calls('pivot_time_assignment')] == list(range(3, 3 + weeks)), 'every start week once')
    for x, _ in s1.calls('pivot_time_assignment'):
      ok(x['data'] is a.historical_data and x['design'] is d and list(x['metric_columns']) == ['x'] and (x['item_id_column'], x['week_id_column'], x['treatment_column'], x['time_period_column']) == ('item', 'wk', None, 'tp'), 'pivoted as in the experiment')
    ok(len(kept) == len(tables), 'pre-trimmed exactly if there is a pretest')
    for (x, _), t in zip(s2.calls('trim_outliers'), tables):
      ok(x['data'] is t and x['order_by'] == ('x', 'pretest') and x['rng'] is a.rng, 'pre-trimmed by the pretest metric')
      c.prove(And(as_t(x['trim_percentile_top']) == as_t(d.pre_trim_top_percentile), as_t(x['trim_percentile_bottom']) == as_t(d.pre_trim_bottom_percentile)), 'pre-trimmed as the design says')
    for t, u in zip(tables, kept):
      c.prove(And(t.dom.card() == n0, u.dom.card() == n1), 'numbers of items of the design')
    adj = s3.calls('apply_cuped_adjustment')
    ok(len(adj) == (weeks if pre and not cross else 0), 'adjusted exactly in regular experiments with a pretest')
    for (x, _), u in zip(adj, kept):
      _vector(c, x['metric'], u.dom, lambda i, u=u: as_t(u.cols[('x', 'test')](i)), 'adjusted metric')
      _vector(c, x['covariate'], u.dom, lambda i, u=u: as_t(u.cols[('x', 'pretest')](i)), 'covariate')
      c.prove(as_t(x['trimming_quantile']) == as_t(d.post_trim_percentile), 'adjusted with the trimming of the design')
    st = [sample_stats(c, d, u, s3, k) for k, u in enumerate(kept)]
    for *_, m in st:
      c.prove(as_t(m) == n2, 'number of samples of the design')
    avg = sum(Rt(x[0]) for x in st) / weeks
    var = sum(Rt(x[1]) for x in st) / weeks
    name = f'yuens_t_test_{"paired" if cross else "ind"}_minimum_detectable_effect'
    calls = [(n, x, r) for n, x, r in s3.log if n.endswith('detectable_effect')]
    ok(len(calls) == 1 and calls[0][0] == name, 'the effect of the test that will be run')
    x, r = calls[0][1:]
    sd = x['difference_standard_deviation' if cross else 'standard_deviation']
    from engine.core import SV
    c.prove(Rt(sd) == Rt(npstub.sqrt(SV(var))), 'standard deviation of the compared samples')
    c.prove(Rt(x['sample_size']) == z3.ToReal(n2), 'sample size')
    c.prove(And(Rt(x['power']) == d.power.t, Rt(x['alpha']) == d.alpha.t), 'power and significance level of the design')
    ok(x['alternative'] == 'two-sided', 'two-sided')
    c.prove(Rt(a.primary_metric_average) == avg, 'average')
    c.prove(Rt(a.primary_metric_standard_deviation) == Rt(sd), 'reported standard deviation')
    c.prove(Rt(a.minimum_detectable_effect) == Rt(r), 'minimum detectable effect')
    c.prove(Rt(a.relative_minimum_detectable_effect) * avg == Rt(r), 'relative minimum detectable effect')
  return fn


for _c in (False, True):
  for _p in (False, True):
    for _w in (1, 2):
      CONTRACTS.append(Contract(f'estimate_minimum_detectable_effect ({"crossover" if _c else "regular"}{", pretest" if _p else ""}, {_w} start week{"s" if _w > 1 else ""})', _mde(_c, _p, _w), subst=_restore, definedness='assume'))


def cases(rng):
  while True:
    cross = rng.random() < 0.5
    pre = rng.choice([0, 0, 1, 2, 4])
    wash = rng.choice([0, 1, 2]) if cross else 0
    run = 2 * (wash + rng.choice([1, 2])) if cross else rng.choice([1, 2, 4])
    yield dict(cross=cross, pre=pre, wash=wash, run=run, n=rng.choice([51, 61, 75, 100, 140]), extra=rng.choice([0, 0, 1, 3]), first=rng.choice([0, 1, 7]), gap=rng.choice([0, 0, 0, 1]), q=rng.choice([0.0, 0.0, 0.01, 0.05, 0.1, 0.2]), top=rng.choice([0.0, 0.1]) if pre else 0.0, bot=rng.choice([0.0, 0.1]) if pre else 0.0,
               alpha=rng.choice([0.05, 0.1, 0.2, 0.01]), power=rng.choice([0.8, 0.9, 0.5]), drift=rng.choice([0.0, 0.0, 1.0, 5.0, 40.0]), wrong=rng.choice([None] * 7 + ['before', 'pre', 'post']), shuffle=rng.random() < 0.3, seed=rng.randrange(10**6))


def experiment(case):
  """(design, table, weekly values [item, week], first start week)."""
  import numpy as np
  import pandas as pd
  from feedx import experiment_design as ed
  r = np.random.default_rng(case['seed'])
  n, weeks = case['n'], case['pre'] + case['gap'] + case['run'] + case['extra']
  base = r.gamma(4, 5, (n, 1))
  vals = base * r.uniform(0.8, 1.2, (n, weeks)) + r.normal(0, 2, (n, weeks)) + case['drift'] * np.arange(weeks)
  ids = case['first'] + np.arange(weeks)
  df = pd.DataFrame({'item': np.repeat([f'i{k:03d}' for k in range(n)], weeks), 'wk': np.tile(ids, n), 'clicks': vals.ravel(), 'other': 1.0})
  if case['shuffle']:
    df = df.sample(frac=1.0, random_state=case['seed'])
  d = ed.ExperimentDesign(n_items_before_trimming=n, runtime_weeks=case['run'], primary_metric='clicks', pretest_weeks=case['pre'], is_crossover=case['cross'], pre_trim_top_percentile=case['top'], pre_trim_bottom_percentile=case['bot'], post_trim_percentile=case['q'],
                          crossover_washout_weeks=case['wash'] if case['cross'] else None, alpha=case['alpha'], power=case['power'])
  return d, df, vals, case['first'] + case['pre'] + case['gap']


def period_means(case, vals, start):
  """{period: average of each item over the weeks of the period}, for start week number `start` (from 0)."""
  from props.C19_time_periods import label
  k = dict(case)
  out = {}
  for w in range(vals.shape[1]):
    out.setdefault(label(w - start, k), []).append(vals[:, w])
  return {p: sum(x) / len(x) for p, x in out.items() if p}


def pretrimmed(case, y):
  """the items kept by pre-trimming on y (no ties)."""
  import math
  import numpy as np
  n = len(y)
  o = np.argsort(y, kind='stable')
  lo, hi = math.floor(n * case['bot']), math.floor(n * case['top'])
  return np.sort(o[lo:n - hi])


def check(case):
  import warnings
  import numpy as np
  from feedx import experiment_simulations as es
  from feedx import statistics as st
  from props.ref import trimmed
  warnings.simplefilter('ignore')
  try:
    d, df, vals, first = experiment(case)
  except ValueError:
    return None
  if case['wrong'] and d.n_items_after_post_trim < 4:
    return None
  f = {'before': 'n_items_before_trimming', 'pre': 'n_items_after_pre_trim', 'post': 'n_items_after_post_trim', None: ''}[case['wrong']]
  before = df.copy()
  a = es.SimulationAnalysis(design=d, historical_data=df, item_id_column='item', week_id_column='wk', minimum_start_week_id=first, rng=np.random.default_rng(case['seed']))
  weeks = list(a.valid_start_week_ids)
  if weeks != [first + k for k in range(case['extra'] + 1)]:
    return f'start weeks {weeks} instead of {case["extra"] + 1} from {first}'
  if f:
    object.__setattr__(d, f, getattr(d, f) + 1)
    try:
      a.estimate_minimum_detectable_effect()
    except RuntimeError:
      return None if a.minimum_detectable_effect is None else 'rejected, but an effect is stored'
    return f'{f} is wrong, but accepted'
  try:
    a.estimate_minimum_detectable_effect()
  except RuntimeError as e:
    if case['pre'] and (case['top'] or case['bot']):
      i = pretrimmed(case, period_means(case, vals, first - case['first'])['pretest'])
      if len(i) != d.n_items_after_pre_trim:
        return None
    return f'matching data is rejected: {e}'
  if not df.equals(before):
    return 'the historical data changed'
  avg, var = [], []
  for s in weeks:
    m = period_means(case, vals, s - case['first'])
    i = pretrimmed(case, m['pretest']) if case['pre'] else np.arange(case['n'])
    m = {p: y[i] for p, y in m.items()}
    if case['cross']:
      mean, cov, k = trimmed([m['test_1'] - m['test_2'], m['test_1'], m['test_2']], case['q'])
      avg.append((mean[1] + mean[2]) / 2)
      # the analysis pairs treated with control: half of the items swap sign; unless the periods are aligned first
      var.append(cov[0, 0] + ((mean[1] - mean[2]) ** 2 if case['q'] else 0))
    else:
      y = st.apply_cuped_adjustment(m['test'], m['pretest'], case['q']) if case['pre'] else m['test']
      mean, cov, k = trimmed([y], case['q'])
      avg.append(mean[0])
      var.append(cov[0, 0])
    if k != d.n_items_after_post_trim:
      return f'{k} samples, but the design has {d.n_items_after_post_trim}'
  cl = lambda x, y: abs(x - y) <= 1e-7 * max(abs(x), abs(y), 1e-3)
  A, S = sum(avg) / len(avg), (sum(var) / len(var)) ** 0.5
  if not cl(a.primary_metric_average, A):
    return f'average {a.primary_metric_average} instead of {A}'
  if not cl(a.primary_metric_standard_deviation, S):
    return f'standard deviation {a.primary_metric_standard_deviation} instead of {S}'
  kw = dict(sample_size=d.n_items_after_post_trim, alternative='two-sided', power=case['power'], alpha=case['alpha'])
  M = st.yuens_t_test_paired_minimum_detectable_effect(difference_standard_deviation=S, **kw) if case['cross'] else st.yuens_t_test_ind_minimum_detectable_effect(standard_deviation=S, **kw)
  if not cl(a.minimum_detectable_effect, M):
    return f'minimum detectable effect {a.minimum_detectable_effect} instead of {M}'
  if not cl(a.relative_minimum_detectable_effect, M / A):
    return f'relative effect {a.relative_minimum_detectable_effect} instead of {M / A}'
  return None
