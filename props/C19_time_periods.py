"""Which weeks belong to which period of an experiment."""
from props.common import *

ID = 'C19'
TITLE = 'Every row is labelled with the one period of the design its week falls in'
STATEMENT = (
    'In a regular experiment the pretest weeks before the start are labelled pretest, the runtime weeks from the start on test. '
    'In a crossover experiment the runtime is split into washout, first test period, washout and second test period, in this order and without gaps, both test periods equally long and together the largest even number of weeks left by the washouts. '
    'Weeks outside have no label; nothing else changes; an existing label column or a missing week column is rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every table and every combination of start week, pretest, runtime and washout weeks')
WHY = 'Tests use a handful of week counts; off-by-one errors at a boundary for other counts (odd runtimes, no pretest, no washout, negative start weeks) need all of them.'
ANCHORS = dict(files=['feedx/experiment_analysis.py'], mechanism=[
    dict(name='add_time_period_column', where='feedx/experiment_analysis.py'),
    dict(name='get_weeks_between', where='feedx/experiment_analysis.py')])
LEVEL_NOTE = 'Tables of unbounded length, every number of weeks (integers), every start week.'
TRUSTED = ['pandas boolean column assignment contract (engine/pdstub.py)']
ASSUMPTIONS = ['week counts are not negative and the runtime is at least twice the washout (guaranteed by the design, C08)', 'week numbers are integers']
CONTRACTS = []


def _design(v, **k):
  ed = v.mod('experiment_design')
  d = object.__new__(ed.ExperimentDesign)
  d.__dict__.update(k)
  return d


def weeks(c, v, cross):
  """a design with arbitrary weeks."""
  from props.spec import as_t, And
  pre, run, wash = c.int('pretest'), c.int('runtime'), c.int('washout')
  c.assume(And(as_t(pre) >= 0, as_t(run) >= 1, as_t(wash) >= 0, as_t(run) >= 2 * as_t(wash)))
  return _design(v, pretest_weeks=pre, runtime_weeks=run, crossover_washout_weeks=wash, is_crossover=cross)


def spans(d):
  """[(label, first week, number of weeks)] relative to the start of the experiment."""
  from props.spec import as_t, z3
  pre, run = as_t(d.pretest_weeks), as_t(d.runtime_weeks)
  if not d.is_crossover:
    return [('pretest', -pre, pre), ('test', z3.IntVal(0), run)]
  o = as_t(d.crossover_washout_weeks)
  p = (run - 2 * o) / 2
  return [('pretest', -pre, pre), ('washout_1', z3.IntVal(0), o), ('test_1', o, p), ('washout_2', o + p, o), ('test_2', 2 * o + p, p)]


def _add(cross, name):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, Not, Implies
    from props.frames import frame, snap, same
    from engine import pdstub
    f = v.mod('experiment_analysis').add_time_period_column
    df = frame(c, {'wk': 'int', 'item': 'obj', 'x': 'real'}, nulls=('x',))
    d0, cols = df.dom, dict(df.cols)
    d = weeks(c, v, cross)
    start = c.int('start')
    out = f(df, design=d, start_week_id=start, week_id_column='wk', **(dict(time_period_column=name) if name else {}))
    label = name or 'time_period'
    c.prove(z3.BoolVal(out.dom.same_rows(d0)), 'same rows')
    c.prove(z3.BoolVal(list(out.cols) == list(cols) + [label]), 'columns')
    i = d0.skolem('i')
    for k in cols:
      same(c, out.cols[k](i), cols[k](i), f'{k} unchanged')
    rel = as_t(cols['wk'](i)) - as_t(start)
    y = out.cols[label](i)
    inside = []
    for lab, a, n in spans(d):
      inside.append(And(a <= rel, rel < a + n))
      c.prove(Implies(inside[-1], And(Not(pdstub.isnull(y)), pdstub.key_eq(y, lab))), f'weeks of {lab}')
    c.prove(Implies(Not(Or(*inside)), pdstub.isnull(y)), 'no label outside')
    c.prove(And(*[Not(And(a, b)) for j, a in enumerate(inside) for b in inside[j + 1:]]), 'periods do not overlap')
  return fn


for _c in (False, True):
  for _n in (None, 'phase'):
    CONTRACTS.append(Contract(f'add_time_period_column ({"crossover" if _c else "regular"}{", " + _n if _n else ""})', _add(_c, _n)))


@contract(CONTRACTS, 'add_time_period_column (rejections)')
def _bad(c, v):
  from props.spec import z3
  from props.frames import frame, snap, unchanged
  f = v.mod('experiment_analysis').add_time_period_column
  which = c.decide(3)
  df = frame(c, {'wk': 'int', 'item': 'obj', **({'time_period': 'obj'} if which == 0 else {'phase': 'obj'} if which == 2 else {})})
  s = snap(df)
  d = weeks(c, v, bool(c.decide(2)))
  o = c.call(f, df, design=d, start_week_id=c.int('start'), week_id_column='week' if which == 1 else 'wk', **(dict(time_period_column='phase') if which == 2 else {}))
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  unchanged(c, df, s, 'input')


@contract(CONTRACTS, 'get_weeks_between')
def _between(c, v):
  from props.spec import z3, as_t, And
  from props.frames import frame
  df = frame(c, {'wk': 'int'})
  a, b = c.int('a'), c.int('b')
  out = v.mod('experiment_analysis').get_weeks_between(df['wk'], a, b)
  i = df.dom.skolem('i')
  w = as_t(df.cols['wk'](i))
  c.prove(as_t(out.fn(i)) == And(as_t(a) <= w, w <= as_t(b)), 'both ends included')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    cross = rng.random() < 0.6
    wash = rng.choice([0, 1, 2, 3]) if cross else 0
    yield dict(cross=cross, wash=wash, pre=rng.choice([0, 1, 2, 5]), run=max(1, 2 * wash) + rng.choice([0, 1, 2, 3, 4, 5, 10]), start=rng.choice([0, 0, 3, -4, 100]), idx=rng.random() < 0.5, name=rng.random() < 0.3, bad=rng.choice([None] * 6 + ['has', 'miss']), seed=rng.randrange(10**6))


def label(rel, case):
  if -case['pre'] <= rel < 0:
    return 'pretest'
  if not case['cross']:
    return 'test' if 0 <= rel < case['run'] else None
  p = (case['run'] - 2 * case['wash']) // 2
  seq = ['washout_1'] * case['wash'] + ['test_1'] * p + ['washout_2'] * case['wash'] + ['test_2'] * p
  return seq[rel] if 0 <= rel < len(seq) else None


def check(case):
  import types
  import numpy as np
  import pandas as pd
  from feedx import experiment_analysis as ea
  r = np.random.default_rng(case['seed'])
  w = np.arange(case['start'] - case['pre'] - 3, case['start'] + case['run'] + 4)
  df = pd.DataFrame({'item': [f'i{k % 3}' for k in range(3 * len(w))], 'wk': np.repeat(w, 3), 'x': r.normal(size=3 * len(w))}).sample(frac=1.0, random_state=case['seed'])
  if case['idx']:
    df = df.reset_index(drop=True)
    df.index = np.arange(len(df)) * 7 - 3
  lab = 'phase' if case['name'] else 'time_period'
  if case['bad'] == 'has':
    df[lab] = 'x'
  d = types.SimpleNamespace(pretest_weeks=case['pre'], runtime_weeks=case['run'], crossover_washout_weeks=case['wash'], is_crossover=case['cross'])
  before = df.copy()
  try:
    out = ea.add_time_period_column(df, design=d, start_week_id=case['start'], week_id_column='nope' if case['bad'] == 'miss' else 'wk', **(dict(time_period_column=lab) if case['name'] else {}))
  except ValueError as e:
    if not df.equals(before):
      return 'the table changed'
    return None if case['bad'] else f'rejected: {e}'
  if case['bad']:
    return f'{case["bad"]} accepted'
  if list(out.columns) != list(before.columns) + [lab] or not out[before.columns].equals(before):
    return 'other columns changed'
  for k, y in zip(out['wk'], out[lab]):
    y = None if y is None or y != y else y
    if y != label(k - case['start'], case):
      return f'week {k - case["start"]}: {y} instead of {label(k - case["start"], case)}'
