"""Validating a design simulates the experiments it promises to analyse, and judges them as documented."""
from props.common import *
from props.C17_pipelines import _Steps

ID = 'C27'
TITLE = 'Design validation simulates the described experiments and judges them soundly'
STATEMENT = (
    'Each simulation resamples the pivoted historical items with replacement at a random possible start week, pre-trims them as the experiment would, splits them at random and analyses them as the design says, once as they are and once with the estimated minimum detectable effect added wherever the item is treated; the results of all simulations are kept in order. '
    'The p-values judge whether the p-values without effect are uniform, false positives exceed alpha, true positives fall short of the power, and the estimates centre on zero or on the effect; a check passes exactly if its p-value is at least the threshold, and the design exactly if all five pass. '
    'Nothing is reported before the validation ran, which needs the estimated effect.')
QUANT = dict(over=['inputs', 'configurations', 'schedules'], text='every design, history and sequence of random draws; any number of simulation results')
WHY = 'Tests run a few simulations of fixed designs with fixed seeds and compare stored numbers.'
ANCHORS = dict(files=['feedx/experiment_simulations.py'], mechanism=[
    dict(name='SimulationAnalysis.validate_design', where='feedx/experiment_simulations.py'),
    dict(name='SimulationAnalysis robustness p-values and checks', where='feedx/experiment_simulations.py'),
    dict(name='_get_pivoted_and_trimmed_historical_data', where='feedx/experiment_simulations.py')])
LEVEL_NOTE = ('Each simulation for any number of items and any random draws, modular over the contracts of the pivot (C20), resampling, assignment and effect (C25), pre-trimming (C10) and analysis (C21); the loop is unrolled for one to two simulations. '
              'The judgements for any number of results, with the statistical tests of scipy as uninterpreted functions.')
TRUSTED = ['scipy.stats.kstest, binomtest, ttest_1samp', 'numpy Generator.choice', 'pandas reset_index / pipe / from_records (engine/pdstub.py)']
BOUNDED = ['one to two simulations per validation in the deductive part']
ASSUMPTIONS = ['p-values and estimates are numbers', 'floats as reals']
CONTRACTS = []
RT_BUDGET = dict(quick=20.0, thorough=180.0)
FLAGS = dict(null_p_value='null_p_value', power='power', aa_point_estimate='aa_point_estimate', ab_point_estimate='ab_point_estimate', false_positive_rate='false_positive_rate')


class Rng:
  """an arbitrary generator, for choice among start weeks."""

  def __init__(self, c):
    self.c, self.drawn = c, []

  def choice(self, a, size=None, replace=True, p=None):
    from engine.core import Unsupported
    if size is not None or p is not None:
      raise Unsupported('rng.choice')
    a = list(range(a)) if isinstance(a, int) else list(a)
    x = a[self.c.decide(len(a))]
    self.drawn.append((a, x))
    return x

  def integers(self, low, high=None, size=None, endpoint=False, **k):
    lo, hi = (0, low) if high is None else (low, high)
    return self.choice(list(range(lo, hi + bool(endpoint))), size)


def _restore(v):
  es, ea, dp = v.mod('experiment_simulations'), v.mod('experiment_analysis'), v.mod('data_preparation')
  return {**{('experiment_simulations', n): getattr(es, n) for n in ('_bootstrap_sample_data', 'apply_random_treatment_assignment', 'apply_synthetic_treatment_effect')},
          **{('experiment_analysis', n): getattr(ea, n) for n in ('pivot_time_assignment', 'analyze_single_metric')}, ('data_preparation', 'trim_outliers'): dp.trim_outliers}


def blank(v, d, **k):
  es = v.mod('experiment_simulations')
  a = object.__new__(es.SimulationAnalysis)
  a.__dict__.update(design=d, historical_data=object(), item_id_column='item', week_id_column='wk', time_period_column='tp', treatment_column='grp', rng=None, minimum_start_week_id=3, maximum_start_week_id=4, robustness_p_value_threshold=None,
                    minimum_detectable_effect=None, relative_minimum_detectable_effect=None, primary_metric_average=None, primary_metric_standard_deviation=None, aa_simulation_results=None, ab_simulation_results=None)
  a.__dict__.update(k)
  return a


def _validate(cross, pre, n):
  def fn(c, v):
    import dataclasses
    from props.spec import z3, as_t, And, SV
    from props.frames import frame, same
    from props.C19_time_periods import _design
    from engine import pdstub
    es, ea, dp, st = v.mod('experiment_simulations'), v.mod('experiment_analysis'), v.mod('data_preparation'), v.mod('statistics')
    mde = c.real('mde')
    bar = bool(c.decide(2))
    if bar:      # the title of the progress bar needs a valid design
      top, bot = (0.1, 0.05) if pre else (0.0, 0.0)
      d = es.ExperimentDesign(n_items_before_trimming=1000, runtime_weeks=4, primary_metric='x', pretest_weeks=3 if pre else 0, is_crossover=cross, pre_trim_top_percentile=top, pre_trim_bottom_percentile=bot, post_trim_percentile=0.1, crossover_washout_weeks=1 if cross else None)
    else:
      top, bot = c.real('top'), c.real('bottom')
      d = _design(v, is_crossover=cross, pretest_weeks=(c.int('pretest') if pre else 0), primary_metric='x', pre_trim_top_percentile=top, pre_trim_bottom_percentile=bot, n_items_before_trimming=c.int('n0'), n_items_after_pre_trim=c.int('n1'))
      if pre:
        c.assume(d.pretest_weeks.t >= 1)
    rng = Rng(c)
    a = blank(v, d, rng=rng, minimum_detectable_effect=mde)
    hist = a.historical_data
    s1, s2, s3 = _Steps(ea), _Steps(dp), _Steps(es)
    ps = (['pretest'] if pre else []) + (['test_1', 'test_2'] if cross else ['test'])

    def pivoted(name):
      df = frame(c, {**{('x', p): 'real' for p in ps}, 'item': 'obj', 'g': 'int'}, name=name)
      ix = pdstub.Index(df.dom, [df.cols.pop('item'), df.cols.pop('g')], ['item', 'grp'])
      return df, ix

    def plain(name):
      df, ix = pivoted(name)
      df._index = pdstub.Index(df.dom, ix.levels[:1], ['item'])
      return df

    def assigned(name):
      df, ix = pivoted(name)
      df._index = ix
      return df

    def trim(args):
      df = args['data']
      f = z3.Function(f'kept{len(s2.log)}', z3.IntSort(), z3.BoolSort())
      dom = df.dom.filter(lambda i: SV(f(i[1][0])))
      return pdstub.DataFrame._make(dom, df.cols, df.space, df._index_on(dom))
    fields = [f.name for f in dataclasses.fields(st.StatisticalTestResults)]
    order = []

    def result(args):
      k = len(s1.calls('analyze_single_metric'))
      return st.StatisticalTestResults(**{f: c.real(f'{f}_{k}') for f in fields})
    s1.put('pivot_time_assignment', lambda args: plain(f'pivot{len(s1.log)}'))
    s1.put('analyze_single_metric', result)
    s2.put('trim_outliers', trim)
    s3.put('_bootstrap_sample_data', lambda args: plain(f'boot{len(s3.log)}'))
    s3.put('apply_random_treatment_assignment', lambda args: assigned(f'split{len(s3.log)}'))
    s3.put('apply_synthetic_treatment_effect', lambda args: assigned(f'effect{len(s3.log)}'))
    a.validate_design(n, progress_bar=bar)
    ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
    pv, tr, an = s1.calls('pivot_time_assignment'), s2.calls('trim_outliers'), s1.calls('analyze_single_metric')
    bo, sp, ef = [s3.calls(x) for x in ('_bootstrap_sample_data', 'apply_random_treatment_assignment', 'apply_synthetic_treatment_effect')]
    ok(len(pv) == len(bo) == len(sp) == len(ef) == n and len(tr) == (n if pre else 0) and len(an) == 2 * n, 'one simulation each')
    ok(len(rng.drawn) == n and all(x == [3, 4] for x, _ in rng.drawn), 'a random possible start week')
    for k in range(n):
      x, t = pv[k]
      ok(x['start_week_id'] == rng.drawn[k][1] and x['data'] is hist and x['design'] is d and list(x['metric_columns']) == ['x'] and (x['item_id_column'], x['week_id_column'], x['treatment_column'], x['time_period_column']) == ('item', 'wk', None, 'tp'), 'pivoted as in the experiment')
      x, b = bo[k]
      ok(x[list(x)[0]] is t and any(u is rng for u in x.values()) and 'item' in [u for u in x.values() if isinstance(u, str)], 'resampled from the pivoted items')
      if pre:
        x, b2 = tr[k]
        ok(x['data'] is b and x['order_by'] == ('x', 'pretest') and x['rng'] is rng, 'pre-trimmed by the pretest metric')
        c.prove(And(as_t(x['trim_percentile_top']) == as_t(top), as_t(x['trim_percentile_bottom']) == as_t(bot)), 'pre-trimmed as the design says')
        b = b2
      x, g = sp[k]
      y = x['data']
      ok(y.dom.same_rows(b.dom), 'every resampled item is assigned')
      i = b.dom.skolem('i')
      for p in ps:
        same(c, y.cols[('x', p)](i), b.cols[('x', p)](i), 'items as resampled')
      key = [q for q in y.cols if q in ('item', ('item', ''))]
      ok(len(key) == 1, 'ids as a column')
      same(c, y.cols[key[0]](i), b._index.levels[0](i), 'ids as resampled')
      ok(x['rng'] is rng and x['item_id_column'] == 'item' and x['treatment_column'] == 'grp', 'random split')
      x, e = ef[k]
      ok(x[list(x)[0]] is g and x['metric_name'] == 'x' and x['design'] is d and x['treatment_assignment_index_name'] == 'grp', 'effect on the same split')
      c.prove(as_t(x['effect_size']) == as_t(mde), 'the minimum detectable effect')
      for (x, r), w in zip(an[2 * k:2 * k + 2], (g, e)):
        ok(x[list(x)[0]] is w and x['design'] is d and x['metric_name'] == 'x' and x['treatment_assignment_index_name'] == 'grp' and x.get('denominator_metric_name') is None and x.get('trimming_quantile_override') is None, 'analysed as the design says')
    for name, off in (('aa', 0), ('ab', 1)):
      t = getattr(a, f'{name}_simulation_results')
      ok(len(t.rows) == n and all(sorted(r) == sorted(fields) for r in t.rows), f'{name}: one row each')
      for k in range(n):
        r = an[2 * k + off][1]
        c.prove(And(*[as_t(t.rows[k][f]) == as_t(getattr(r, f)) for f in fields]), f'{name}: results')
    ok(a.minimum_detectable_effect is mde and a.historical_data is hist, 'nothing else changes')
  return fn


for _c in (False, True):
  for _p in (False, True):
    for _n in (1, 2):
      CONTRACTS.append(Contract(f'validate_design ({"crossover" if _c else "regular"}{", pretest" if _p else ""}, {_n} simulation{"s" if _n > 1 else ""})', _validate(_c, _p, _n), subst=_restore))


@contract(CONTRACTS, 'validate_design (before the estimate)', subst=_restore)
def _early(c, v):
  from props.spec import z3
  from props.C19_time_periods import _design
  a = blank(v, _design(v, primary_metric='x'))
  o = c.call(a.validate_design, 2, progress_bar=bool(c.decide(2)))
  c.prove(z3.BoolVal(o.raised(RuntimeError) and a.aa_simulation_results is None and a.ab_simulation_results is None), 'rejected with a RuntimeError')


@contract(CONTRACTS, 'robustness checks (before the validation)')
def _none(c, v):
  from props.spec import z3
  from props.C19_time_periods import _design
  a = blank(v, _design(v, alpha=c.real('alpha'), power=c.real('power')), robustness_p_value_threshold=c.real('threshold'), minimum_detectable_effect=[None, c.real('mde')][c.decide(2)])
  for f in FLAGS:
    c.prove(z3.BoolVal(getattr(a, f'{f}_robustness_p_value') is None), f'{f} p-value unknown')
    c.prove(z3.BoolVal(getattr(a, f'{f}_robustness_check_pass') is None), f'{f} check unknown')
  for f in ('simulated_false_positive_rate', 'simulated_power_at_minimum_detectable_effect', 'all_robustness_checks_pass'):
    c.prove(z3.BoolVal(getattr(a, f) is None), f'{f} unknown')


def validated(c, v):
  from props.spec import z3, And
  from props.frames import frame
  from props.C19_time_periods import _design
  aa = frame(c, {'p_value': 'real', 'absolute_difference': 'real', 'is_significant': 'bool'}, name='aa')
  ab = frame(c, {'p_value': 'real', 'absolute_difference': 'real', 'is_significant': 'bool'}, name='ab')
  c.assume(And(aa.dom.card() >= 1, ab.dom.card() == aa.dom.card()))
  d = _design(v, alpha=c.real('alpha'), power=c.real('power'))
  a = blank(v, d, aa_simulation_results=aa, ab_simulation_results=ab, minimum_detectable_effect=c.real('mde'), robustness_p_value_threshold=c.real('threshold'))
  return a, d, aa, ab


def _args(e, names):
  """arguments of the recorded call e by name."""
  return {**dict(zip(names, e[1])), **e[2]}


@contract(CONTRACTS, 'robustness p-values')
def _pvalues(c, v):
  from props.spec import z3, as_t, And, Rt
  from props.C21_analysis_samples import _vector
  from engine import npstub
  a, d, aa, ab = validated(c, v)
  ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
  which = list(FLAGS)[c.decide(5)]
  p = getattr(a, f'{which}_robustness_p_value')
  e = [x for x in c.events if x[0] in ('kstest', 'binomtest', 'ttest_1samp')]
  ok(len(e) == 1, 'one statistical test')
  e = e[0]
  c.prove(Rt(p) == Rt(e[3].pvalue), 'its p-value')
  df = ab if which in ('power', 'ab_point_estimate') else aa
  if which == 'null_p_value':
    k = _args(e, ['rvs', 'cdf', 'args', 'N', 'alternative'])
    ok(e[0] == 'kstest' and k['cdf'] in ('uniform', 'uniform cdf') and k.get('alternative', 'two-sided') == 'two-sided' and not k.get('args'), 'compared with the uniform distribution')
    _vector(c, k['rvs'], df.dom, lambda i: as_t(df.cols['p_value'](i)), 'p-values')
  elif which in ('power', 'false_positive_rate'):
    k = _args(e, ['k', 'n', 'p', 'alternative'])
    ok(e[0] == 'binomtest' and k.get('alternative', 'two-sided') == ('less' if which == 'power' else 'greater'), 'binomial test in the harmful direction')
    c.prove(Rt(k['p']) == Rt(d.power if which == 'power' else d.alpha), 'promised rate')
    c.prove(Rt(k['n']) == z3.ToReal(df.dom.card()), 'all simulations')
    c.prove(Rt(k['k']) == z3.ToReal(df.dom.filter(lambda i: df.cols['p_value'](i) < d.alpha).card()), 'number of significant results')
  else:
    k = _args(e, ['a', 'popmean', 'axis', 'nan_policy', 'alternative'])
    ok(e[0] == 'ttest_1samp' and k.get('alternative', 'two-sided') == 'two-sided', 'two-sided test of the mean')
    c.prove(Rt(k['popmean']) == (Rt(a.minimum_detectable_effect) if which == 'ab_point_estimate' else 0), 'true effect')
    _vector(c, k['a'], df.dom, lambda i: as_t(df.cols['absolute_difference'](i)), 'estimates')


@contract(CONTRACTS, 'simulated rates')
def _rates(c, v):
  from props.spec import z3, Rt
  a, d, aa, ab = validated(c, v)
  for f, df in (('simulated_false_positive_rate', aa), ('simulated_power_at_minimum_detectable_effect', ab)):
    n = z3.ToReal(df.dom.card())
    c.prove(Rt(getattr(a, f)) * n == z3.ToReal(df.dom.filter(lambda i: df.cols['p_value'](i) < d.alpha).card()), f'{f}: share of significant results')


@contract(CONTRACTS, 'robustness checks')
def _checks(c, v):
  from props.spec import z3, as_t, And, Rt
  a, d, aa, ab = validated(c, v)
  B = lambda x: z3.BoolVal(x) if isinstance(x, bool) else as_t(x)
  want = []
  for f in FLAGS:
    n = len(c.events)
    p = getattr(a, f'{f}_robustness_check_pass')
    e = [x for x in c.events[n:] if x[0] in ('kstest', 'binomtest', 'ttest_1samp')]
    c.prove(z3.BoolVal(len(e) == 1 and (e[0][0]) == {'null_p_value': 'kstest', 'power': 'binomtest', 'false_positive_rate': 'binomtest'}.get(f, 'ttest_1samp')), f'{f}: one test')
    c.prove(B(p) == (Rt(e[0][3].pvalue) >= Rt(a.robustness_p_value_threshold)), f'{f}: passes exactly at or above the threshold')


@contract(CONTRACTS, 'all robustness checks')
def _all(c, v):
  from props.spec import z3, as_t, And, Rt
  a, d, aa, ab = validated(c, v)
  B = lambda x: z3.BoolVal(x) if isinstance(x, bool) else as_t(x)
  r = a.all_robustness_checks_pass
  e = [x for x in c.events if x[0] in ('kstest', 'binomtest', 'ttest_1samp')]
  c.prove(z3.BoolVal(sorted(x[0] for x in e) == ['binomtest', 'binomtest', 'kstest', 'ttest_1samp', 'ttest_1samp']), 'five tests')
  ks = sorted(str(_args(x, ['k', 'n', 'p', 'alternative']).get('alternative')) for x in e if x[0] == 'binomtest')
  c.prove(z3.BoolVal(ks == ['greater', 'less']), 'both rates')
  t = [_args(x, ['a', 'popmean'])['popmean'] for x in e if x[0] == 'ttest_1samp']
  zero = [x for x in t if not isinstance(x, (int, float))]
  c.prove(z3.BoolVal(len(zero) == 1), 'both point estimates')
  c.prove(B(r) == And(*[Rt(x[3].pvalue) >= Rt(a.robustness_p_value_threshold) for x in e]), 'passes exactly if all do')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  from props import C26_sensitivity as C26
  for case in C26.cases(rng):
    yield dict(case, wrong=None, n=rng.choice([61, 75, 100]), n_sim=rng.choice([1, 2, 5, 12]), mode=rng.choice(['run', 'made', 'made']), share=rng.choice([0.0, 0.03, 0.05, 0.2, 0.5, 1.0]), shift=rng.choice([0.0, 0.0, 0.3, 3.0]), m=rng.choice([3, 10, 200]), thr=rng.choice([None, 0.0001, 0.05, 0.9]))


def judged(a, d, aa, ab):
  """what the checks should say, from the definition."""
  import numpy as np
  from scipy import stats
  sa, sb = int((aa.p_value < d.alpha).sum()), int((ab.p_value < d.alpha).sum())
  m, k = len(aa), len(ab)
  p = dict(null_p_value=stats.kstest(aa.p_value.to_numpy(), 'uniform').pvalue, power=stats.binom.cdf(sb, k, d.power), false_positive_rate=stats.binom.sf(sa - 1, m, d.alpha))
  for f, t, mu in (('aa', aa, 0.0), ('ab', ab, a.minimum_detectable_effect)):
    x = t.absolute_difference.to_numpy()
    s = x.std(ddof=1)
    p[f + '_point_estimate'] = 2 * stats.t.sf(abs(x.mean() - mu) / (s / np.sqrt(len(x))), len(x) - 1) if s > 0 else None
  return p, sa / m, sb / k


def check(case):
  import dataclasses
  import warnings
  import numpy as np
  import pandas as pd
  from feedx import experiment_simulations as es
  from feedx import experiment_analysis as ea
  from props.C26_sensitivity import experiment, period_means, pretrimmed
  warnings.simplefilter('ignore')
  try:
    d, df, vals, first = experiment(case)
  except ValueError:
    return None
  before = df.copy()
  k = {} if case['thr'] is None else dict(robustness_p_value_threshold=case['thr'])
  a = es.SimulationAnalysis(design=d, historical_data=df, item_id_column='item', week_id_column='wk', minimum_start_week_id=first, rng=np.random.default_rng(case['seed']), **k)
  names = [f'{f}_robustness_{x}' for f in FLAGS for x in ('p_value', 'check_pass')] + ['all_robustness_checks_pass', 'simulated_false_positive_rate', 'simulated_power_at_minimum_detectable_effect']
  if any(getattr(a, f) is not None for f in names):
    return 'reported before the validation'
  try:
    a.validate_design(2, progress_bar=False)
    return 'validated before the estimate'
  except RuntimeError:
    pass
  cl = lambda x, y: abs(x - y) <= 1e-9 + 1e-6 * max(abs(x), abs(y))
  if case['mode'] == 'made':
    r = np.random.default_rng(case['seed'])
    m = case['m']
    a.minimum_detectable_effect = 2.0
    pv = lambda s: np.where(r.random(m) < s, r.random(m) * d.alpha, r.random(m))
    aa = pd.DataFrame({'p_value': pv(0 if case['share'] > 0.1 else case['share']), 'absolute_difference': r.normal(case['shift'], 1, m)})
    ab = pd.DataFrame({'p_value': pv(case['share']), 'absolute_difference': r.normal(2 + case['shift'], 1, m)})
    if r.random() < 0.3:
      aa.loc[0, 'p_value'] = ab.loc[0, 'p_value'] = d.alpha     # not significant
    a.aa_simulation_results, a.ab_simulation_results = aa, ab
  else:
    try:
      a.estimate_minimum_detectable_effect()
    except RuntimeError:
      return None
    log = []
    orig = ea.analyze_single_metric

    def rec(data, **kw):
      x = data.copy()
      out = orig(data, **kw)
      log.append((x, kw, out))
      return out
    ea.analyze_single_metric = rec
    try:
      a.validate_design(case['n_sim'], progress_bar=False)
    finally:
      ea.analyze_single_metric = orig
    if not df.equals(before):
      return 'the historical data changed'
    aa, ab = a.aa_simulation_results, a.ab_simulation_results
    if len(aa) != case['n_sim'] or len(ab) != case['n_sim']:
      return f'{len(aa)} and {len(ab)} results of {case["n_sim"]} simulations'
    if len(log) == 2 * case['n_sim']:
      f = lambda o: dataclasses.asdict(o)
      for k in range(case['n_sim']):
        e = check_pair(case, a, d, vals, log[2 * k], log[2 * k + 1])
        if e:
          return e
        for t, o in ((aa, log[2 * k][2]), (ab, log[2 * k + 1][2])):
          if any(not (t[n].iloc[k] == x or (t[n].iloc[k] != t[n].iloc[k] and (x is None or x != x)) or t[n].iloc[k] is x) for n, x in f(o).items()):
            return f'results of simulation {k} are not in row {k}'
      if len({str(x[0].to_numpy().tolist()) for x in log[::2]}) != case['n_sim']:
        return 'the simulations are not drawn anew'
    if case['n_sim'] < 5:
      return None
  if a.aa_simulation_results.isna().p_value.any():
    return None
  p, fpr, pw = judged(a, d, a.aa_simulation_results, a.ab_simulation_results)
  if not cl(a.simulated_false_positive_rate, fpr) or not cl(a.simulated_power_at_minimum_detectable_effect, pw):
    return f'rates {a.simulated_false_positive_rate}, {a.simulated_power_at_minimum_detectable_effect} instead of {fpr}, {pw}'
  thr = 0.0001 if case['thr'] is None else case['thr']
  for f, x in p.items():
    if x is None:
      return None
    got = getattr(a, f'{f}_robustness_p_value')
    if not cl(got, x):
      return f'{f}: p-value {got} instead of {x}'
    if abs(x - thr) > 1e-6 and bool(getattr(a, f'{f}_robustness_check_pass')) != (x >= thr):
      return f'{f}: passes {getattr(a, f + "_robustness_check_pass")} with p-value {x} and threshold {thr}'
  if all(abs(x - thr) > 1e-6 for x in p.values()) and bool(a.all_robustness_checks_pass) != all(x >= thr for x in p.values()):
    return f'all checks: {a.all_robustness_checks_pass} with p-values {p} and threshold {thr}'
  for f in FLAGS:   # a p-value equal to the threshold passes
    got = getattr(a, f'{f}_robustness_p_value')
    b = es.SimulationAnalysis(design=d, historical_data=df, item_id_column='item', week_id_column='wk', minimum_start_week_id=first, rng=np.random.default_rng(1), robustness_p_value_threshold=got)
    b.minimum_detectable_effect, b.aa_simulation_results, b.ab_simulation_results = a.minimum_detectable_effect, a.aa_simulation_results, a.ab_simulation_results
    if getattr(b, f'{f}_robustness_p_value') == got and not getattr(b, f'{f}_robustness_check_pass'):
      return f'{f}: fails with p-value {got}, which is the threshold'
  return None


def check_pair(case, a, d, vals, one, two):
  """one simulated experiment without and with the effect."""
  import numpy as np
  from props.C26_sensitivity import period_means, pretrimmed
  x, y = one[0], two[0]
  ps = [p for m, p in x.columns]
  start = None
  for s in a.valid_start_week_ids:
    m = period_means(case, vals, s - case['first'])
    keys = {tuple(round(float(m[p][k]), 7) for p in ps) for k in range(case['n'])}
    if all(tuple(round(float(u), 7) for u in row) in keys for row in x.to_numpy()):
      start = s
  if start is None:
    return 'the items are not averages of historical items at one possible start week'
  ids, g = x.index.get_level_values('item'), x.index.get_level_values('treatment')
  if ids.nunique() != len(x) or not set(g) <= {0, 1}:
    return 'ids are not unique or the split is not into two groups'
  if len(x) != d.n_items_after_pre_trim:
    return f'{len(x)} items in an experiment that should have {d.n_items_after_pre_trim}'
  if list(y.columns) != list(x.columns) or list(y.index) != list(x.index):
    return 'the effect changed the items, the split or the periods'
  e = a.minimum_detectable_effect
  for mp in x.columns:
    add = np.where(g == 1, e, 0.0) if mp[1] in ('test', 'test_1') else np.where(g == 0, e, 0.0) if mp[1] == 'test_2' else 0.0
    if not np.allclose(y[mp].to_numpy(), x[mp].to_numpy() + add, rtol=1e-9, atol=1e-9):
      return f'effect on {mp}'
  for k in (one[1], two[1]):
    if k.get('metric_name') != 'clicks' or k.get('design') is not d or k.get('denominator_metric_name') is not None or k.get('trimming_quantile_override') is not None:
      return 'analysed with other parameters than the design'
  return None
