"""At-least-one metrics, demo effects and synthetic demo data."""
from props.common import *

ID = 'C18'
TITLE = 'Derived metrics, demo effects and synthetic data are exactly as described'
STATEMENT = (
    'An at-least-one metric is one where the metric is greater than zero and zero elsewhere, and nothing else changes. '
    'Demo effects multiply each metric by one plus its effect exactly in the rows of treated items in the treated periods (crossover: group one in the first washout and test period, group zero in the second), leaving the input and all other rows alone. '
    'Synthetic data has each item on each day once, never more clicks than impressions or conversions than clicks, and its rates and amounts are drawn with the requested mean and standard deviation; impossible parameters are rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every table, effect size and combination of distribution parameters')
WHY = 'Tests check a dozen rows and never look at the moments of the generated data.'
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[
    dict(name='add_at_least_one_metrics', where='feedx/data_preparation.py'),
    dict(name='add_relative_effects_to_synthetic_data_for_demo', where='feedx/data_preparation.py'),
    dict(name='generate_synthetic_data', where='feedx/data_preparation.py')])
LEVEL_NOTE = ('Tables of unbounded length; parameters of the samplers as real numbers, the moments proved through the textbook moments of the lognormal and beta distributions. '
              'The panel structure of the synthetic data (items, days, clicks within impressions) is a bounded runtime check, not proved.')
TRUSTED = ['numpy samplers draw from the distribution with the given parameters', 'moments of the lognormal and beta distributions']
ASSUMPTIONS = ['metrics are not missing for at-least-one metrics']
CONTRACTS = []
METRICS = ['impressions', 'clicks', 'conversions', 'total_conversion_value', 'total_cost']


@contract(CONTRACTS, 'add_at_least_one_metrics')
def _alo(c, v):
  from props.spec import z3, as_t, Rt
  from props.frames import frame, same
  f = v.mod('data_preparation').add_at_least_one_metrics
  df = frame(c, {'item_id': 'obj', 'clicks': 'real', 'cost': 'int', 'any': 'real'})
  d0, cols = df.dom, dict(df.cols)
  which = [{}, {'clicks': 'one_click'}, {'clicks': 'one_click', 'cost': 'one_cost'}, {'cost': 'any'}][c.decide(4)]
  out = f(df, which)
  c.prove(z3.BoolVal(out.dom.same_rows(d0) and set(out.cols) == set(cols) | set(which.values())), 'same rows, the new columns')
  i = d0.skolem('i')
  for k in cols:
    if k not in which.values():
      same(c, out.cols[k](i), cols[k](i), f'{k} unchanged')
  for m, a in which.items():
    y = out.cols[a](i)
    c.prove(as_t(y) == z3.If(Rt(cols[m](i)) > 0, z3.IntVal(1), z3.IntVal(0)) if as_t(y).sort() == z3.IntSort() else z3.BoolVal(False), f'{a} is an indicator of {m}')


def _demo(cross, given):
  def fn(c, v):
    from props.spec import z3, as_t, Rt, And, Or, Not
    from props.frames import frame, snap, unchanged, same
    from engine import pdstub, core
    f = v.mod('data_preparation').add_relative_effects_to_synthetic_data_for_demo
    df = frame(c, {'phase': 'obj', 'arm': 'int', 'item': 'obj', **{m: 'real' for m in METRICS}})
    d, col = df.dom, df.cols
    here = lambda lab: d.exists(lambda i: pdstub.key_eq(col['phase'](i), lab))
    c.assume(here('test_1') if cross else Not(here('test_1')))
    s = snap(df)
    eff = {m: c.real(f'effect_{m}') for m in METRICS} if given else {m: 0.1 if m == 'impressions' else 0.2 for m in METRICS}
    out = f(df, time_period_column='phase', treatment_assignment_column='arm', **({f'{m}_relative_effect': e for m, e in eff.items()} if given else {}))
    unchanged(c, df, s, 'input')
    c.prove(z3.BoolVal(out.dom.same_rows(d) and list(out.cols) == list(col)), 'rows and columns')
    i = d.skolem('i')
    ph, arm = (lambda x: pdstub.key_eq(col['phase'](i), x)), as_t(col['arm'](i))
    if cross:
      treated = Or(And(Or(ph('washout_1'), ph('test_1')), arm == 1), And(Or(ph('washout_2'), ph('test_2')), arm == 0))
    else:
      treated = And(ph('test'), arm == 1)
    for k in ('phase', 'arm', 'item'):
      same(c, out.cols[k](i), col[k](i), f'{k} unchanged')
    for m in METRICS:
      x = Rt(col[m](i))
      c.prove(Rt(out.cols[m](i)) == z3.If(treated, x * (1 + Rt(eff[m])), x), f'{m}: effect exactly where treated')
  return fn


for _c in (True, False):
  for _g in (True, False):
    CONTRACTS.append(Contract(f'add_relative_effects_to_synthetic_data_for_demo ({"crossover" if _c else "regular"}, {"given" if _g else "default"} effects)', _demo(_c, _g)))


class _Rng:

  def __init__(self):
    self.calls = []

  def lognormal(self, mean, sigma, size=None):
    self.calls.append((mean, sigma, size))
    return 'drawn'

  def beta(self, a, b, size=None):
    self.calls.append((a, b, size))
    return 'drawn'


@contract(CONTRACTS, '_sample_from_lognormal')
def _logn(c, v):
  from props.spec import z3, Rt, And, Not
  from engine import npstub
  f = v.mod('data_preparation')._sample_from_lognormal
  m, s = c.real('mean'), c.real('sd')
  rng, size = _Rng(), (7, 1)
  o = c.call(f, rng, m, s, size)
  good = And(Rt(m) > 0, Rt(s) > 0)
  if not o.ok:
    c.prove(And(z3.BoolVal(o.raised(ValueError)), Not(good)), 'only impossible parameters are rejected, with a ValueError')
    return
  c.prove(good, 'impossible parameters are rejected')
  (mu, sigma, sz), = rng.calls
  c.prove(z3.BoolVal(sz == size and o.value == 'drawn'), 'the draw is returned')
  # moments of the lognormal distribution: log E = mu + sigma^2/2,  sigma^2 = log(1 + Var/E^2)
  var = Rt(npstub.log(s * s / (m * m) + 1))
  c.prove(Rt(sigma) >= 0, 'sigma is not negative')
  c.prove(Rt(sigma) * Rt(sigma) == var, 'the standard deviation is the requested one')
  c.prove(Rt(mu) + var / 2 == Rt(npstub.log(m)), 'the mean is the requested one')


@contract(CONTRACTS, '_sample_from_beta')
def _beta(c, v):
  from props.spec import z3, Rt, And, Not
  f = v.mod('data_preparation')._sample_from_beta
  m, s = c.real('mean'), c.real('sd')
  rng, size = _Rng(), (7, 1)
  o = c.call(f, rng, m, s, size)
  good = And(Rt(m) > 0, Rt(m) < 1, Rt(s) > 0, Rt(s) * Rt(s) < Rt(m) * (1 - Rt(m)))
  if not o.ok:
    c.prove(And(z3.BoolVal(o.raised(ValueError)), Not(good)), 'only impossible parameters are rejected, with a ValueError')
    return
  c.prove(good, 'impossible parameters are rejected')
  (a, b, sz), = rng.calls
  c.prove(z3.BoolVal(sz == size and o.value == 'drawn'), 'the draw is returned')
  a, b = Rt(a), Rt(b)
  # moments of the beta distribution: E = a/(a+b), Var = ab / ((a+b)^2 (a+b+1))
  mt, st = Rt(m), Rt(s)
  n = mt * (1 - mt) / (st * st) - 1
  c.lemma(n > 0, 'concentration')
  c.lemma(a == mt * n, 'first parameter')
  c.lemma(b == (1 - mt) * n, 'second parameter')
  c.prove(And(a > 0, b > 0), 'parameters are positive')
  c.prove(a == mt * (a + b), 'the mean is the requested one')
  c.prove(a * b == st * st * (a + b) * (a + b) * (a + b + 1), 'the standard deviation is the requested one')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    kind = rng.choice(['alo', 'demo', 'demo', 'synth', 'moments'])
    yield dict(kind=kind, seed=rng.randrange(10**6), n=rng.choice([1, 2, 7, 30]), cross=rng.random() < 0.5, given=rng.random() < 0.6, ints=rng.random() < 0.3, before=rng.choice([0, 1, 2]), after=rng.choice([0, 1, 3]), start=rng.choice(['2023-01-01', '2024-02-27', '2023-12-30', None]),
               mean=rng.choice([0.02, 0.1, 0.5, 0.9]), rel=rng.choice([0.1, 0.5, 0.9, 0.99, 1.0, 1.5]), bad=rng.choice([None] * 5 + ['ctr', 'cr', 'imp', 'cpc', 'val']), lmean=rng.choice([0.01, 0.5, 50.0, 1e4]), lrel=rng.choice([0.01, 0.3, 1.0, 2.0]), which=rng.choice(['beta', 'lognormal']), idx=rng.random() < 0.5)


def check(case):
  import warnings
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    return _check(case)


def _check(case):
  import datetime
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  r = np.random.default_rng(case['seed'])
  n = case['n']
  if case['kind'] == 'alo':
    x = r.choice([-1.0, -1e-300, -0.0, 0.0, 1e-300, 1.0, 5.0], n)
    df = pd.DataFrame({'item': range(n), 'x': x.astype(int) if case['ints'] else x, 'y': r.integers(0, 3, n)}, index=r.permutation(n) if case['idx'] else range(n))
    before = df.copy()
    out = dp.add_at_least_one_metrics(df, {'x': 'any_x', 'y': 'any_y'})
    if list(out.columns) != ['item', 'x', 'y', 'any_x', 'any_y'] or not out[['item', 'x', 'y']].equals(before):
      return 'other columns changed'
    for m in 'xy':
      if [int(a) for a in out['any_' + m]] != [1 if a > 0 else 0 for a in before[m]] or not pd.api.types.is_integer_dtype(out['any_' + m]):
        return f'{m}: {list(before[m])} -> {list(out["any_" + m])}'
    return None
  if case['kind'] == 'demo':
    labs = ['pretest', 'washout_1', 'test_1', 'washout_2', 'test_2', None] if case['cross'] else ['pretest', 'test', None]
    df = pd.DataFrame({'phase': [labs[int(k)] for k in r.integers(0, len(labs), n)], 'arm': r.integers(0, 2, n), **{m: (r.integers(0, 9, n).astype(float)) for m in METRICS}}, index=r.permutation(n) + 2 if case['idx'] else range(n))
    cross = 'test_1' in set(df['phase'])
    before = df.copy()
    eff = {m: float(r.choice([-1.0, -0.3, 0.0, 0.1, 2.0])) for m in METRICS} if case['given'] else {m: 0.1 if m == 'impressions' else 0.2 for m in METRICS}
    out = dp.add_relative_effects_to_synthetic_data_for_demo(df, time_period_column='phase', treatment_assignment_column='arm', **({m + '_relative_effect': e for m, e in eff.items()} if case['given'] else {}))
    if not df.equals(before):
      return 'the input changed'
    if not out[['phase', 'arm']].equals(before[['phase', 'arm']]):
      return 'other columns changed'
    for k, (p, a) in enumerate(zip(before['phase'], before['arm'])):
      t = (p in ('washout_1', 'test_1') and a == 1) or (p in ('washout_2', 'test_2') and a == 0) if cross else (p == 'test' and a == 1)
      for m in METRICS:
        w = before[m].iloc[k] * (1.0 + eff[m]) if t else before[m].iloc[k]
        if not close(out[m].iloc[k], w):
          return f'{m} in {p}, arm {a}: {out[m].iloc[k]} instead of {w}'
    return None
  if case['kind'] == 'moments':
    if case['which'] == 'beta':
      m = case['mean']
      s = case['rel'] * (m * (1 - m)) ** 0.5
      args = (dp._sample_from_beta, m, s, 0 < s < 1 and s * s < m * (1 - m) * (1 - 1e-9), s * s > m * (1 - m) * (1 + 1e-9) or s >= 1)
    else:
      args = (dp._sample_from_lognormal, case['lmean'], case['lmean'] * case['lrel'], True, False)
    f, m, s, good, wrong = args
    try:
      x = f(np.random.default_rng(case['seed']), m, s, 40000)
    except ValueError as e:
      return f'mean {m}, sd {s} rejected: {e}' if good else None
    if wrong:
      return f'mean {m}, sd {s} accepted'
    if not good:
      return None
    # seven standard errors; the heavy tail of the lognormal needs a wide margin
    tol = 0.12 if case['which'] == 'beta' else 0.05 + 0.25 * case['lrel'] ** 2
    if abs(x.mean() - m) > 7 * s / 200 or abs(x.std() - s) > tol * s * (1 if case['which'] == 'beta' else 1 + case['lrel']):
      return f'{case["which"]} mean {m}, sd {s}: drawn with mean {x.mean()}, sd {x.std()}'
    return None
  kw = dict(n_items=n, weeks_before_start_date=case['before'], weeks_after_start_date=case['after'])
  if case['start']:
    kw['start_date'] = case['start']
  bad = case['bad']
  if bad:
    name, x = dict(ctr=('ctr_standard_deviation', 0.5), cr=('conversion_rate_average', 1.0), imp=('impressions_average', 0.0), cpc=('cpc_daily_level_standard_deviation', -1.0), val=('conversion_value_item_level_standard_deviation', 0.0))[bad]
    kw[name] = x
  try:
    df = dp.generate_synthetic_data(np.random.default_rng(case['seed']), **kw)
  except ValueError as e:
    return None if bad else f'rejected: {e}'
  if bad:
    return f'{bad} accepted'
  if sorted(df.columns) != sorted(['date', 'item_id'] + METRICS):
    return f'columns {list(df.columns)}'
  d0 = datetime.date.fromisoformat(case['start'] or '2023-01-01')
  want = {(f'item_{i}', (d0 + datetime.timedelta(days=k)).isoformat()) for i in range(n) for k in range(-7 * case['before'], 7 * case['after'])}
  got = list(zip(df['item_id'], df['date']))
  if len(got) != len(want) or set(got) != want:
    return f'{len(got)} rows instead of every item and day once ({len(want)})'
  for x in df.to_dict('records'):
    if not 0 <= x['conversions'] <= x['clicks'] <= x['impressions']:
      return f'{x}'
    if (x['total_cost'] > 0) != (x['clicks'] > 0) or (x['total_conversion_value'] > 0) != (x['conversions'] > 0):
      return f'cost or value without clicks or conversions: {x}'
  if not df.equals(dp.generate_synthetic_data(np.random.default_rng(case['seed']), **kw)):
    return 'not reproducible'
