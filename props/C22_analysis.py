"""Analysing all metrics of an experiment with the settings of its design."""
from props.common import *
from props.C17_pipelines import _Steps
from props.C21_analysis_samples import pivoted, recorders

ID = 'C22'
TITLE = 'Every metric is analysed once, with the settings of the design'
STATEMENT = (
    'The analysis of an experiment returns one row per requested metric, in order, labelled with its name and holding exactly the results of the test of its column (and denominator). '
    'Every test uses the experiment\'s weeks counted from its start, the significance level of the design, and the trimming of the design unless the metric overrides it (an override of 0 included), consistently for the adjustment, the alignment of periods and the test. '
    'Data without the periods the design needs is rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every list of metrics (plain, ratio, overridden), every design and table')
WHY = 'Tests analyse single metrics with default settings; a setting that does not reach the test of one metric leaves plausible results.'
ANCHORS = dict(files=['feedx/experiment_analysis.py'], mechanism=[
    dict(name='analyze_experiment', where='feedx/experiment_analysis.py'),
    dict(name='analyze_single_metric', where='feedx/experiment_analysis.py')])
LEVEL_NOTE = ('Arbitrary tables, designs and results of the individual tests; modular over the contracts of the pivot (C20), the samples (C21) and the tests (C03 to C05). '
              'The loop over the metrics is checked for lists of one to three metrics of every kind (the bodies of its iterations are independent).')
TRUSTED = ['pandas from_records / set_index (engine/pdstub.py)']
BOUNDED = ['analyze_experiment: lists of one to three metrics']
ASSUMPTIONS = ['the treatment assignment of every item is 0 or 1']
CONTRACTS = []


def _restore(v):
  st, ea = v.mod('statistics'), v.mod('experiment_analysis')
  return {**{('statistics', n): getattr(st, n) for n in ('apply_cuped_adjustment', 'yuens_t_test_ind', 'yuens_t_test_paired')},
          **{('experiment_analysis', n): getattr(ea, n) for n in ('pivot_time_assignment', 'analyze_single_metric')}}


KINDS = [(None, False), ('imps', False), (None, True), ('imps', True), ('clicks', False)]


@contract(CONTRACTS, 'analyze_experiment', subst=_restore)
def _experiment(c, v):
  import dataclasses
  from props.spec import z3, as_t, simp
  from props.frames import frame, snap, unchanged
  from props.C19_time_periods import _design
  from engine.core import SV
  ea, st = v.mod('experiment_analysis'), v.mod('statistics')
  k = 1 + c.decide(3)
  specs = []
  for j in range(k):
    den, over = KINDS[c.decide(len(KINDS) if j == 0 else 4)]
    col = ['x', 'imps', 'x'][j]
    specs.append((f'metric {j}', col, den, c.real(f'override{j}') if over else None))
  metrics = [ea.Metric(n, col, den, o) if o is not None else ea.Metric(n, col, den) for n, col, den, o in specs]
  df = frame(c, {'wk': 'int', 'item': 'obj', 'grp': 'int', 'x': 'real', 'imps': 'real', 'clicks': 'real'})
  s = snap(df)
  d = _design(v, alpha=c.real('alpha'), is_crossover=True, post_trim_percentile=c.real('q'), pretest_weeks=c.int('pre'))
  steps = _Steps(ea)
  table = object()
  fields = [f.name for f in dataclasses.fields(st.StatisticalTestResults)]

  def single(a):
    n = len(steps.calls('analyze_single_metric'))
    return st.StatisticalTestResults(**{f: c.real(f'{f}_{n}') for f in fields})
  steps.put('pivot_time_assignment', lambda a: table)
  steps.put('analyze_single_metric', single)
  cols = dict(week_id_column='wk', item_id_column='item', treatment_assignment_column='grp')
  out = ea.analyze_experiment(df, metrics=metrics, design=d, **cols)
  ok = lambda b, n: c.prove(z3.BoolVal(bool(b)), n)
  pv, calls = steps.calls('pivot_time_assignment'), steps.calls('analyze_single_metric')
  ok(len(pv) == 1 and pv[0][0]['data'] is df and pv[0][0]['design'] is d, 'the data is pivoted with the design')
  a = pv[0][0]
  c.prove(as_t(a['start_week_id']) == 0, 'weeks count from the start of the experiment')
  ok((a['item_id_column'], a['week_id_column'], a['treatment_column']) == ('item', 'wk', 'grp'), 'columns of the pivot')
  need = {x for _, col, den, _ in specs for x in (col, den) if x}
  ok(set(a['metric_columns']) == need and len(a['metric_columns']) == len(need), 'every metric and denominator is pivoted, once')
  ok(len(calls) == k, 'one analysis per metric')
  for (n, col, den, o), (b, r) in zip(specs, calls):
    ok(b['data'] is table and b['design'] is d and b['metric_name'] == col and b['denominator_metric_name'] == den and b['treatment_assignment_index_name'] == 'grp', f'{n}: analysed with its columns and the design')
    if o is None:
      ok(b['trimming_quantile_override'] is None, f'{n}: trimming of the design')
    else:
      ok(b['trimming_quantile_override'] is not None, f'{n}: trimming overridden')
      c.prove(as_t(b['trimming_quantile_override']) == as_t(o), f'{n}: its own trimming')
  rows = out.rows
  ok(out.idx is not None and out.idx[0] == 'metric' and list(out.idx[1]) == [n for n, *_ in specs], 'one row per metric, in order')
  for (n, *_), row, (_, r) in zip(specs, rows, calls):
    ok(set(row) == set(fields), f'{n}: all results')
    for f in fields:
      if f in row:
        c.prove(as_t(row[f]) == as_t(getattr(r, f)), f'{n}: {f}')
  unchanged(c, df, s, 'input')


def _over(cross):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, Not, npstub
    from props.C19_time_periods import _design
    ea = v.mod('experiment_analysis')
    df, t = pivoted(c, [(m, p) for m in ('x', 'z') for p in (('test_1', 'test_2') if cross else ('pretest', 'test'))])
    cols = dict(df.cols)
    c.assume(df.dom.card() >= 1)
    q, o, alpha = c.real('q'), c.real('override'), c.real('alpha')
    c.assume(And(q.t >= 0, q.t < 0.5, o.t >= 0, o.t < 0.5))
    d = _design(v, is_crossover=cross, post_trim_percentile=q, alpha=alpha, pretest_weeks=c.int('weeks'))
    steps = recorders(v)
    ratio = bool(c.decide(2))
    out = ea.analyze_single_metric(df, design=d, metric_name='x', denominator_metric_name='z' if ratio else None, treatment_assignment_index_name='group', trimming_quantile_override=o)
    n = 'yuens_t_test_paired' if cross else 'yuens_t_test_ind'
    calls = steps.calls(n)
    c.prove(z3.BoolVal(len(calls) == 1 and out is calls[0][1]), 'one test')
    a = calls[0][0]
    c.prove(as_t(a['trimming_quantile']) == o.t, 'overridden trimming of the test')
    c.prove(as_t(a['alpha']) == alpha.t, 'significance level of the design')
    for b, _ in steps.calls('apply_cuped_adjustment'):
      c.prove(as_t(b['trimming_quantile']) == o.t, 'overridden trimming of the adjustment')
    if cross and c.fork(o.t != 0):
      i = df.dom.skolem('i')
      raw = z3.If(t(i).t == 1, as_t(cols[('x', 'test_1')](i)), as_t(cols[('x', 'test_2')](i)))
      c.prove(as_t(npstub.as_arr(a['values1']).fn(i)) == raw, 'overridden trimming: periods not aligned')
    elif cross:
      i = df.dom.skolem('i')
      y1, y2 = cols[('x', 'test_1')], cols[('x', 'test_2')]
      nr = z3.ToReal(df.dom.card())
      m1, m2 = df.dom.sum(lambda e: y1(e)) / nr, df.dom.sum(lambda e: y2(e)) / nr
      df_ = as_t(npstub.as_arr(a['values1']).fn(i)) - as_t(npstub.as_arr(a['values2']).fn(i))
      c.prove(df_ == z3.If(t(i).t == 1, 1, -1) * ((as_t(y1(i)) - m1) - (as_t(y2(i)) - m2)), 'no trimming by override: periods aligned')
  return fn


for _c in (False, True):
  CONTRACTS.append(Contract(f'analyze_single_metric (trimming override, {"crossover" if _c else "regular"})', _over(_c), subst=_restore))


@contract(CONTRACTS, 'analyze_single_metric (required periods)', subst=_restore)
def _required(c, v):
  from props.spec import z3, as_t, And
  from props.frames import snap, unchanged
  from props.C19_time_periods import _design
  ea = v.mod('experiment_analysis')
  cross = bool(c.decide(2))
  full = ('test_1', 'test_2') if cross else ('pretest', 'test')
  ratio = bool(c.decide(2))
  miss = ('z' if ratio and c.decide(2) else 'x', full[c.decide(2)])
  which = c.decide(2)     # a missing period, or a missing assignment
  cols = [(m, p) for m in ('x', 'z') for p in full + ('extra',) if which or (m, p) != miss]
  df, t = pivoted(c, cols)
  s = snap(df)
  pre = c.int('weeks')
  c.assume(pre.t >= 1)
  d = _design(v, is_crossover=cross, post_trim_percentile=c.real('q'), alpha=c.real('alpha'), pretest_weeks=pre)
  steps = recorders(v)
  o = c.call(ea.analyze_single_metric, df, design=d, metric_name='x', denominator_metric_name='z' if ratio else None, treatment_assignment_index_name='nope' if which else 'group')
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  c.prove(z3.BoolVal(not steps.log), 'nothing is analysed')
  unchanged(c, df, s, 'input')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    cross = rng.random() < 0.5
    wash = rng.choice([0, 1, 2]) if cross else 0
    yield dict(cross=cross, wash=wash, pre=rng.choice([0, 1, 3]), run=2 * wash + rng.choice([2, 3, 4, 6]), q=rng.choice([0.0, 0.0, 0.05, 0.1]), alpha=rng.choice([0.05, 0.01, 0.1, 0.3]),
               metrics=[(f'm{j} {rng.choice("ab")}', rng.choice(['x', 'imps', 'clicks']), rng.choice([None, None, 'imps', 'cost']), rng.choice([None, None, 0.0, 0.15])) for j in range(rng.choice([1, 1, 2, 3, 6]))],
               n=rng.choice([24, 40]), neg=rng.random() < 0.2, drop=rng.choice([None] * 6 + ['pretest', 'second']), seed=rng.randrange(10**6))


def check(case):
  import contextlib, dataclasses, io, types, warnings
  import numpy as np
  import pandas as pd
  from feedx import experiment_analysis as ea
  from props.C21_analysis_samples import samples
  from props.ref import summary
  warnings.simplefilter('ignore')
  r = np.random.default_rng(case['seed'])
  n, ws = case['n'], np.arange(-case['pre'] - 1, case['run'] + 2)
  g = r.permutation(np.arange(n) % 2)
  df = pd.DataFrame(dict(item=np.repeat([f'i{k:03d}' for k in range(n)], len(ws)), wk=np.tile(ws, n), grp=np.repeat(g, len(ws))))
  base = np.repeat(r.gamma(3, 10, n), len(ws))
  for j, m in enumerate(('x', 'imps', 'clicks', 'cost')):
    df[m] = base * (j + 1) + r.gamma(2, 3, len(df)) - (1000 if case['neg'] and m == 'x' else 0)
  if case['drop'] == 'pretest':
    df = df[df.wk >= 0]
  if case['drop'] == 'second' and case['cross']:
    df = df[df.wk < case['wash'] + 1]
  df = df.sample(frac=1.0, random_state=case['seed'])
  d = types.SimpleNamespace(is_crossover=case['cross'], post_trim_percentile=case['q'], alpha=case['alpha'], pretest_weeks=case['pre'], runtime_weeks=case['run'], crossover_washout_weeks=case['wash'])
  short = (case['drop'] == 'pretest' and case['pre'] > 0 and not case['cross']) or (case['drop'] == 'second' and case['cross'])
  before = df.copy()
  ms = [ea.Metric(a, b, e, o) for a, b, e, o in case['metrics']]
  try:
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
      out = ea.analyze_experiment(df, metrics=ms, design=d, week_id_column='wk', item_id_column='item', treatment_assignment_column='grp')
  except ValueError as e:
    return None if short else f'rejected: {e}'
  if short:
    return 'accepted without the periods of the design'
  if not df.equals(before):
    return 'the data changed'
  if list(out.index) != [m.name for m in ms] or out.index.name != 'metric':
    return f'rows {list(out.index)}'
  p = (case['run'] - 2 * case['wash']) // 2
  spans = dict(test=(0, case['run']), pretest=(-case['pre'], case['pre'])) if not case['cross'] else dict(test_1=(case['wash'], p), test_2=(2 * case['wash'] + p, p))
  items = sorted(set(df['item']))
  tab = {(m, l): np.array([before[(before['item'] == i) & (before.wk >= a) & (before.wk < a + k)][m].sum() / k for i in items]) for l, (a, k) in spans.items() if k for m in ('x', 'imps', 'clicks', 'cost')}
  gi = [int(g[int(i[1:])]) for i in items]
  tb = pd.DataFrame(tab)
  for k, m in enumerate(ms):
    q = case['q'] if m.trimming_quantile_override is None else m.trimming_quantile_override
    cs = dict(cross=case['cross'], pre=case['pre'])
    v1, v2 = samples(cs, tb, gi, q, m.column)
    w1, w2 = samples(cs, tb, gi, q, m.denominator_column) if m.denominator_column else (None, None)
    with np.errstate(all='ignore'):
      m1, m2, se, *_ , dof, size = summary(dict(kind='paired' if case['cross'] else 'ind', v1=v1, v2=v2, w1=w1, w2=w2, q=q, equal_var=False))
    row = out.iloc[k]
    if not (np.isfinite(se) and se > 1e-6 * max(abs(m1), abs(m2))):
      continue
    cl = lambda a, b: abs(a - b) <= 1e-6 * max(abs(a), abs(b), se)
    if not cl(row['absolute_difference'], m1 - m2) or not cl(row['standard_error'], se) or not cl(row['control_average'], m2) or row['sample_size'] != size:
      return f'{m}: difference {row["absolute_difference"]}, standard error {row["standard_error"]}, control {row["control_average"]}, n {row["sample_size"]} instead of {m1 - m2}, {se}, {m2}, {size}'
    if row['alpha'] != case['alpha'] or (abs(row['p_value'] - case['alpha']) > 1e-9 and bool(row['is_significant']) != bool(row['p_value'] < case['alpha'])):
      return f'{m}: significance {row["is_significant"]} p {row["p_value"]} alpha {row["alpha"]}, design {case["alpha"]}'
