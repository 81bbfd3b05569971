"""Which samples the test of a metric compares."""
from props.common import *
from props.C17_pipelines import _Steps

ID = 'C21'
TITLE = 'The analysis compares treated with control samples, each item once, well paired'
STATEMENT = (
    'In a regular experiment the test compares the test-period averages of the treated items with those of the control items, each item once and in the same order in numerator and denominator, adjusted with its own pretest average when there is one, without assuming equal variances. '
    'In a crossover experiment each item contributes the pair of its treated and its untreated period: items treated first are treated in the first period, the others in the second. '
    'Without trimming the two periods are aligned, removing the effect of time from every difference while the mean of the control samples is that of the raw data; with trimming the raw values are used.')
QUANT = dict(over=['inputs'], text='every pivoted table (items, assignments and values), plain and ratio metrics, every trimming quantile')
WHY = 'A swapped period, a wrong group, or a denominator out of step with its numerator gives plausible numbers; the tests look at single synthetic experiments.'
ANCHORS = dict(files=['feedx/experiment_analysis.py'], mechanism=[
    dict(name='_prepare_metrics_for_regular_experiment', where='feedx/experiment_analysis.py'),
    dict(name='_prepare_metrics_for_crossover_experiment', where='feedx/experiment_analysis.py'),
    dict(name='analyze_single_metric', where='feedx/experiment_analysis.py')])
LEVEL_NOTE = ('Any number of items and any assignment; verified against the contracts of the covariate adjustment (C02) and of the two tests (C03 to C05), which are replaced by recorders: the samples handed to them are the ones stated. '
              'The end to end result is compared with an independent computation by the runtime contract.')
TRUSTED = ['pandas column selection and reset_index, numpy boolean indexing contracts (engine/pdstub.py, engine/npstub.py)']
ASSUMPTIONS = ['the treatment assignment of every item is 0 or 1', 'floats as reals']
CONTRACTS = []


def _restore(v):
  st = v.mod('statistics')
  return {('statistics', n): getattr(st, n) for n in ('apply_cuped_adjustment', 'yuens_t_test_ind', 'yuens_t_test_paired')}


def pivoted(c, cols, group='group'):
  """a pivoted table: index (item, group), columns (metric, period)."""
  from props.spec import as_t, Or
  from props.frames import frame
  from engine import pdstub, npstub
  df = frame(c, {**{k: 'real' for k in cols}, 'item': 'obj', group: 'int'})
  t = df.cols[group]
  vs = tuple(c.fresh('q', __import__('z3').IntSort()).t for _ in df.dom.branches[0][0])
  import z3
  x = z3.Int('gx')
  f = t((0, (x,))).t
  c.axiom(z3.ForAll([x], z3.Or(f == 0, f == 1), patterns=[f]))
  lv = [df.cols.pop('item'), df.cols.pop(group)]
  df._index = pdstub.Index(df.dom, lv, ['item', group])
  return df, t


def recorders(v):
  from engine import npstub
  from engine.core import SV, ctx, R
  import z3
  steps = _Steps(v.mod('statistics'))

  def cuped(a):
    y = npstub.as_arr(a['metric'])
    f = z3.Function(str(ctx().fresh('adjusted', R).t) + '_at', z3.IntSort(), R)
    return npstub.Arr(y.dims, lambda i: SV(f(i[1][0])))
  steps.put('apply_cuped_adjustment', cuped)
  steps.put('yuens_t_test_ind', lambda a: ('ind',))
  steps.put('yuens_t_test_paired', lambda a: ('paired',))
  return steps


def _vector(c, a, dom, fn, what):
  """array a holds fn(row) for exactly the rows of dom, in the order of the table."""
  from props.spec import z3, as_t
  from engine import npstub
  a = npstub.as_arr(a)
  c.prove(z3.BoolVal(len(a.dims) == 1 and not isinstance(a.dims[0], int)), f'{what}: a vector')
  d = a.dims[0]
  c.prove(z3.BoolVal(d.same_rows(dom)), f'{what}: the right items, once each, in table order')
  i = d.skolem('i')
  c.prove(as_t(a.fn(i)) == fn(i), f'{what}: the right values')


METRICS = {False: ['x'], True: ['x', 'z']}


def _regular(ratio, pre):
  def fn(c, v):
    from props.spec import z3, as_t, And
    from props.frames import snap, unchanged
    from props.C19_time_periods import _design
    from engine.core import SV
    ea = v.mod('experiment_analysis')
    df, t = pivoted(c, [(m, p) for m in METRICS[ratio] + ['other'] for p in (['pretest'] if pre else []) + ['test']])
    s, cols, d0 = snap(df), dict(df.cols), df.dom
    q, alpha = c.real('q'), c.real('alpha')
    c.assume(And(q.t >= 0, q.t < 0.5))
    d = _design(v, is_crossover=False, post_trim_percentile=q, alpha=alpha, pretest_weeks=c.int('weeks') if pre else 0)
    steps = recorders(v)
    out = ea.analyze_single_metric(df, design=d, metric_name='x', denominator_metric_name='z' if ratio else None, treatment_assignment_index_name='group')
    calls = steps.calls('yuens_t_test_ind')
    adj = steps.calls('apply_cuped_adjustment')
    c.prove(z3.BoolVal(len(calls) == 1 and not steps.calls('yuens_t_test_paired') and out is calls[0][1]), 'one test of two independent samples, its result returned')
    c.prove(z3.BoolVal(len(adj) == (len(METRICS[ratio]) if pre else 0)), 'adjusted exactly if there is a pretest')
    a = calls[0][0]
    values = []
    for k, m in enumerate(METRICS[ratio]):
      if pre:
        b = adj[k][0]
        _vector(c, b['metric'], d0, lambda i: as_t(cols[(m, 'test')](i)), f'adjustment of {m}')
        _vector(c, b['covariate'], d0, lambda i: as_t(cols[(m, 'pretest')](i)), f'covariate of {m}')
        c.prove(as_t(b['trimming_quantile']) == q.t, f'adjustment of {m}: same trimming')
        values.append(lambda i, r=adj[k][1]: as_t(r.fn(i)))
      else:
        values.append(lambda i, m=m: as_t(cols[(m, 'test')](i)))
    for g, n in ((1, '1'), (0, '2')):
      rows = d0.filter(lambda i: SV(t(i).t == g))
      _vector(c, a['values' + n], rows, values[0], 'treated sample' if g else 'control sample')
      if ratio:
        _vector(c, a['denom_values' + n], rows, values[1], 'treated denominators' if g else 'control denominators')
      else:
        c.prove(z3.BoolVal(a['denom_values' + n] is None), 'no denominators')
    c.prove(as_t(a['trimming_quantile']) == q.t, 'trimming of the design')
    c.prove(as_t(a['alpha']) == alpha.t, 'significance level of the design')
    c.prove(z3.BoolVal(a['equal_var'] is False and a['alternative'] == 'two-sided'), 'two-sided, unequal variances')
    unchanged(c, df, s, 'input')
  return fn


def _cross(ratio):
  def fn(c, v):
    from props.spec import z3, as_t, And, Rt
    from props.frames import snap, unchanged
    from props.C19_time_periods import _design
    ea = v.mod('experiment_analysis')
    df, t = pivoted(c, [(m, p) for m in METRICS[ratio] + ['other'] for p in ('pretest', 'test_1', 'test_2', 'washout_1')])
    s, cols, d0 = snap(df), dict(df.cols), df.dom
    n = d0.card()
    c.assume(n >= 1)
    q, alpha = c.real('q'), c.real('alpha')
    c.assume(And(q.t >= 0, q.t < 0.5))
    d = _design(v, is_crossover=True, post_trim_percentile=q, alpha=alpha, pretest_weeks=c.int('weeks'))
    steps = recorders(v)
    out = ea.analyze_single_metric(df, design=d, metric_name='x', denominator_metric_name='z' if ratio else None, treatment_assignment_index_name='group')
    calls = steps.calls('yuens_t_test_paired')
    c.prove(z3.BoolVal(len(calls) == 1 and not steps.calls('yuens_t_test_ind') and not steps.calls('apply_cuped_adjustment') and out is calls[0][1]), 'one paired test, its result returned')
    a = calls[0][0]
    nr = z3.ToReal(n)
    mean = lambda f: d0.sum(lambda i: f(i)) / nr
    trimmed = c.fork(q.t != 0)
    from engine.core import SV
    for k, m in enumerate(METRICS[ratio]):
      y1, y2 = cols[(m, 'test_1')], cols[(m, 'test_2')]
      raw_t = lambda i: z3.If(t(i).t == 1, as_t(y1(i)), as_t(y2(i)))
      raw_c = lambda i: z3.If(t(i).t == 1, as_t(y2(i)), as_t(y1(i)))
      T, C = (a['values1'], a['values2']) if k == 0 else (a['denom_values1'], a['denom_values2'])
      w = 'metric' if k == 0 else 'denominator'
      if trimmed:
        _vector(c, T, d0, raw_t, f'{w}, treated samples')
        _vector(c, C, d0, raw_c, f'{w}, control samples')
        continue
      m1, m2 = mean(y1), mean(y2)
      al_t = lambda i: z3.If(t(i).t == 1, as_t(y1(i)) - m1, as_t(y2(i)) - m2)
      al_c = lambda i: z3.If(t(i).t == 1, as_t(y2(i)) - m2, as_t(y1(i)) - m1)
      shift = mean(lambda i: SV(raw_c(i))) - mean(lambda i: SV(al_c(i)))
      _vector(c, T, d0, lambda i: al_t(i) + shift, f'{w}, treated samples')
      _vector(c, C, d0, lambda i: al_c(i) + shift, f'{w}, control samples')
      c.prove(as_t(mean(lambda i: C.fn(i))) == as_t(mean(lambda i: SV(raw_c(i)))), f'{w}: mean of the control samples is that of the raw data')
      i = d0.skolem('i')
      c.prove(as_t(T.fn(i)) - as_t(C.fn(i)) == z3.If(t(i).t == 1, 1, -1) * ((as_t(y1(i)) - m1) - (as_t(y2(i)) - m2)), f'{w}: differences free of the period effect')
    if not ratio:
      c.prove(z3.BoolVal(a['denom_values1'] is None and a['denom_values2'] is None), 'no denominators')
    c.prove(as_t(a['trimming_quantile']) == q.t, 'trimming of the design')
    c.prove(as_t(a['alpha']) == alpha.t, 'significance level of the design')
    c.prove(z3.BoolVal(a['alternative'] == 'two-sided'), 'two-sided')
    unchanged(c, df, s, 'input')
  return fn


for _r in (False, True):
  for _p in (False, True):
    CONTRACTS.append(Contract(f'analyze_single_metric (regular{", ratio" if _r else ""}{", pretest" if _p else ""})', _regular(_r, _p), subst=_restore))
  CONTRACTS.append(Contract(f'analyze_single_metric (crossover{", ratio" if _r else ""})', _cross(_r), subst=_restore))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    cross = rng.random() < 0.55
    yield dict(cross=cross, ratio=rng.random() < 0.4, pre=rng.random() < 0.6, n=rng.choice([8, 11, 20, 41, 100]), q=rng.choice([0, 0.0, 0.0, 0.01, 0.05, 0.1, 0.2]), over=rng.choice([None, None, 0.0, 0.1]), alpha=rng.choice([0.05, 0.01, 0.1, 0.32]), drift=rng.choice([0, 3, -2, 50]), share=rng.choice([0.5, 0.5, 0.3, 0.7]), kind=rng.choice(['float', 'float', 'int', 'heavy']), index=rng.random() < 0.3, seed=rng.randrange(10**6))


def build(case):
  import types
  import numpy as np
  import pandas as pd
  r = np.random.default_rng(case['seed'])
  n = case['n']
  g = (r.random(n) < case['share']).astype(int)
  g[:3], g[3:6] = 1, 0
  g = r.permutation(g)
  base = r.gamma(4, 5, n) + (r.random(n) < 0.1) * (100 if case['kind'] == 'heavy' else 0)
  cols = {}
  for m in ('z', 'x', 'other'):
    for p in (['pretest'] if case['pre'] else []) + (['test_1', 'test_2', 'washout_1'] if case['cross'] else ['test']):
      y = base * r.uniform(0.7, 1.3) + r.normal(0, 2, n) + (case['drift'] if p == 'test_2' else 0) + 30 * (m == 'z')
      cols[(m, p)] = np.round(y).astype(int) if case['kind'] == 'int' else y
  idx = pd.MultiIndex.from_arrays([[f'item{k:04d}' for k in range(n)], g], names=['item', 'group'])
  df = pd.DataFrame(cols, index=idx)
  df.columns = pd.MultiIndex.from_tuples(list(cols), names=[None, 'time_period'])
  d = types.SimpleNamespace(is_crossover=case['cross'], post_trim_percentile=case['q'], alpha=case['alpha'], pretest_weeks=3 if case['pre'] else 0, runtime_weeks=4, crossover_washout_weeks=0)
  return df, g, d


def samples(case, df, g, q, m):
  """(treated, control) samples of one metric, from the definition."""
  import numpy as np
  from feedx import statistics as st
  if not case['cross']:
    y = df[(m, 'test')].to_numpy(float)
    if case['pre']:
      y = st.apply_cuped_adjustment(y, df[(m, 'pretest')].to_numpy(float), q)
    return [y[k] for k in range(len(g)) if g[k] == 1], [y[k] for k in range(len(g)) if g[k] == 0]
  y1, y2 = df[(m, 'test_1')].to_numpy(float), df[(m, 'test_2')].to_numpy(float)
  T, C = [(y1[k] if g[k] else y2[k]) for k in range(len(g))], [(y2[k] if g[k] else y1[k]) for k in range(len(g))]
  if q:
    return T, C
  a1, a2 = sum(y1) / len(g), sum(y2) / len(g)
  T2 = [(y1[k] - a1 if g[k] else y2[k] - a2) for k in range(len(g))]
  C2 = [(y2[k] - a2 if g[k] else y1[k] - a1) for k in range(len(g))]
  s = sum(C) / len(g) - sum(C2) / len(g)
  return [t + s for t in T2], [t + s for t in C2]


def check(case):
  import warnings
  import numpy as np
  from feedx import experiment_analysis as ea
  from props.ref import summary
  from scipy import stats
  warnings.simplefilter('ignore')
  df, g, d = build(case)
  before = df.copy()
  q = case['q'] if case['over'] is None else case['over']
  if case['kind'] == 'int' and q and (case['cross'] or case['ratio']):
    return None   # ties: which of equal samples is trimmed is not specified
  with np.errstate(all='ignore'):
    r = ea.analyze_single_metric(df, design=d, metric_name='x', denominator_metric_name='z' if case['ratio'] else None, treatment_assignment_index_name='group', trimming_quantile_override=case['over'])
  if not df.equals(before):
    return 'the pivoted table changed'
  v1, v2 = samples(case, df, g, q, 'x')
  w1, w2 = samples(case, df, g, q, 'z') if case['ratio'] else (None, None)
  ref = dict(kind='paired' if case['cross'] else 'ind', v1=v1, v2=v2, w1=w1, w2=w2, q=q, equal_var=False)
  with np.errstate(all='ignore'):
    m1, m2, se, _, _, _, dof, n = summary(ref)
  if not (np.isfinite(se) and se > 1e-9):
    return None
  cl = lambda a, b: abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-3)
  if not cl(r.absolute_difference, m1 - m2):
    return f'difference {r.absolute_difference} instead of {m1 - m2}'
  if not cl(r.standard_error, se):
    return f'standard error {r.standard_error} instead of {se}'
  if not cl(r.degrees_of_freedom, dof) or r.sample_size != n:
    return f'degrees of freedom {r.degrees_of_freedom} instead of {dof}, sample size {r.sample_size} instead of {n}'
  if not cl(r.control_average, m2):
    return f'control average {r.control_average} instead of {m2}'
  p = 2 * stats.t.sf(abs((m1 - m2) / se), dof)
  if not abs(r.p_value - p) <= 1e-6 + 1e-4 * p:
    return f'p-value {r.p_value} instead of {p}'
  if r.alpha != case['alpha'] or (abs(p - case['alpha']) > 1e-6 and bool(r.is_significant) != (p < case['alpha'])):
    return f'significance {r.is_significant} at p={p}, design alpha {case["alpha"]}, reported alpha {r.alpha}'
  if case['cross'] and not q and not case['ratio'] and not cl(r.control_average, sum(df[('x', 'test_2')].to_numpy(float)[k] if g[k] else df[('x', 'test_1')].to_numpy(float)[k] for k in range(len(g))) / len(g)):
    return 'control average is not that of the raw data'
