"""Weekly averages per item and period."""
from props.common import *
from props.C19_time_periods import weeks, spans, label

ID = 'C20'
TITLE = 'The analysis table holds the weekly average of each metric per item and period'
STATEMENT = (
    'Pivoting returns one row per item (and treatment group) that has data in the experiment, one column per metric and period of the design that occurs in the data. '
    'Each value is the sum of the item\'s metric over the weeks of the period, missing rows counting as 0, divided by the number of weeks of that period in the design. '
    'Weeks outside the design contribute nothing, the input is left as it was, and missing columns or an already existing label column are rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every table (any rows, order, missing rows or values), every design and start week')
WHY = 'Tests pivot a few tables without gaps; a wrong divisor, a leaked washout week or a lost item shows only for other designs, gaps or missing rows.'
ANCHORS = dict(files=['feedx/experiment_analysis.py'], mechanism=[
    dict(name='pivot_time_assignment', where='feedx/experiment_analysis.py'),
    dict(name='_pivot_regular_time_assignment', where='feedx/experiment_analysis.py'),
    dict(name='_pivot_crossover_time_assignment', where='feedx/experiment_analysis.py')])
LEVEL_NOTE = 'Tables of unbounded length, every number of weeks, every start week; one or two metrics, with and without a treatment column.'
TRUSTED = ['pandas pivot_table contract (engine/pdstub.py)']
ASSUMPTIONS = ['week counts are not negative and the runtime is at least twice the washout (C08)', 'week numbers are integers',
               'the data holds at least one row of the (first) test period; without one the regular pivot fails with a KeyError']
CONTRACTS = []


def _pivot(cross, treat, metrics, name=None):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, Not, Implies
    from props.frames import frame, snap, unchanged, covers
    from engine import pdstub
    from engine.core import SV
    f = v.mod('experiment_analysis').pivot_time_assignment
    cols = {'wk': 'int', 'item': 'obj', **({'group': 'int'} if treat else {}), **{m: 'real' for m in metrics}, 'other': 'real'}
    df = frame(c, cols, nulls=metrics[1:])
    d0, cs = df.dom, dict(df.cols)
    s = snap(df)
    d = weeks(c, v, cross)
    start = c.int('start')
    rel = lambda i: as_t(cs['wk'](i)) - as_t(start)
    sp = [(lab, (lambda i, a=a, n=n: And(a <= rel(i), rel(i) < a + n)), n) for lab, a, n in spans(d)]
    c.assume(d0.exists(lambda i: sp[2 if cross else 1][1](i)))
    keys = ['item'] + (['group'] if treat else [])
    out = f(df, design=d, start_week_id=start, metric_columns=list(metrics), item_id_column='item', week_id_column='wk', **(dict(treatment_column='group') if treat else {}), **(dict(time_period_column=name) if name else {}))
    inside = lambda i: Or(*[p(i) for _, p, _ in sp])
    # rows
    c.prove(z3.BoolVal(list(out.index.names) == keys), 'index names')
    covers(c, out.dom, list(out.index.levels), d0, [cs[k] for k in keys], 'items', cond=inside)
    o = out.dom.skolem('row')
    lv = [f_(o) for f_ in out.index.levels]
    mine = lambda i: And(*[pdstub.key_eq(a, cs[k](i)) for a, k in zip(lv, keys)])
    c.prove(d0.exists(lambda i: And(inside(i), mine(i))), 'nothing is invented')
    o2 = out.dom.skolem('row2')
    c.prove(Implies(And(*[pdstub.key_eq(a, f_(o2)) for a, f_ in zip(lv, out.index.levels)]), And(*[x == y for x, y in zip(o[1], o2[1])])), 'one row per item')
    # columns
    present = {lab: d0.exists(lambda i, p=p: p(i)) for lab, p, _ in sp}
    got = list(out.columns)
    c.prove(z3.BoolVal(set(got) <= {(m, lab) for m in metrics for lab, _, _ in sp} and len(set(got)) == len(got)), 'only periods of the design')
    for lab, p, n in sp:
      has = [(m, lab) in got for m in metrics]
      if any(has):
        c.prove(z3.BoolVal(all(has)), f'every metric has {lab}')
      else:
        c.prove(Not(present[lab]), f'{lab} is kept if it occurs')
    # values
    for m, lab in got:
      p, n = next((p, n) for l, p, n in sp if l == lab)
      total = pdstub.Series(d0.filter(lambda i: SV(And(p(i), mine(i)))), cs[m]).sum()
      y = out.cols[(m, lab)](o)
      w = d0.skolem('w')
      c.lemma(present[lab], f'{lab} occurs')
      c.lemma(n >= 1, f'{lab} has a week')
      c.prove(Not(pdstub.isnull(y)), f'average {m} {lab} is a number')
      c.prove(as_t(y) * z3.ToReal(n) == as_t(total), f'average {m} {lab}')
    unchanged(c, df, s, 'input')
  return fn


for _c in (False, True):
  for _t in (False, True):
    CONTRACTS.append(Contract(f'pivot_time_assignment ({"crossover" if _c else "regular"}{", with treatment" if _t else ""})', _pivot(_c, _t, ('x', 'y') if not _c else ('x',), 'phase' if _t else None)))
CONTRACTS.append(Contract('pivot_time_assignment (crossover, missing values)', _pivot(True, True, ('z', 'y'))))


@contract(CONTRACTS, 'pivot_time_assignment (rejections)')
def _bad(c, v):
  from props.spec import z3
  from props.frames import frame, snap, unchanged
  f = v.mod('experiment_analysis').pivot_time_assignment
  which = c.decide(6)
  cols = {'wk': 'int', 'item': 'obj', 'group': 'int', 'x': 'real', 'y': 'real'}
  if which == 0:
    cols['time_period'] = 'obj'
  if which == 1:
    cols['phase'] = 'obj'
  drop = {2: 'wk', 3: 'item', 4: 'group', 5: 'y'}.get(which)
  if drop:
    del cols[drop]
  df = frame(c, cols)
  s = snap(df)
  o = c.call(f, df, design=weeks(c, v, bool(c.decide(2))), start_week_id=c.int('start'), metric_columns=['x', 'y'], item_id_column='item', week_id_column='wk', treatment_column='group', **(dict(time_period_column='phase') if which == 1 else {}))
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  unchanged(c, df, s, 'input')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    cross = rng.random() < 0.6
    wash = rng.choice([0, 1, 2, 3]) if cross else 0
    yield dict(cross=cross, wash=wash, pre=rng.choice([0, 1, 2, 5]), run=max(2 if cross else 1, 2 * wash) + rng.choice([0, 2, 3, 4, 5, 10]), start=rng.choice([0, 0, 3, -4, 100]), treat=rng.random() < 0.6, gaps=rng.choice([0, 0, 0.1, 0.5, 0.9]), nan=rng.choice([0, 0, 0.1]), kind=rng.choice(['int', 'float', 'float', 'bigfloat']), pad=rng.choice([0, 3]), n=rng.choice([1, 2, 5]), name=rng.random() < 0.3, dup=rng.random() < 0.2, bad=rng.choice([None] * 6 + ['has', 'wk', 'x', 'item']), seed=rng.randrange(10**6))


def check(case):
  import types, warnings
  import numpy as np
  import pandas as pd
  from feedx import experiment_analysis as ea
  warnings.simplefilter('ignore')
  r = np.random.default_rng(case['seed'])
  ws = np.arange(case['start'] - case['pre'] - case['pad'], case['start'] + case['run'] + case['pad'])
  rows = [(f'i{k}', k % 2, int(w)) for k in range(case['n']) for w in ws if r.random() >= case['gaps']]
  if case['dup']:
    rows += rows[: len(rows) // 2]
  df = pd.DataFrame(rows, columns=['item', 'group', 'wk'])
  for m in ('x', 'y'):
    z = r.normal(size=len(df)) * {'int': 20, 'float': 1, 'bigfloat': 1e6}[case['kind']]
    df[m] = z.astype(int) if case['kind'] == 'int' else z
    if case['nan'] and case['kind'] != 'int':
      df.loc[r.random(len(df)) < case['nan'], m] = np.nan
  df = df.sample(frac=1.0, random_state=case['seed'])
  lab = 'phase' if case['name'] else 'time_period'
  cs = dict(case)
  labels = [label(w - case['start'], cs) for w in df['wk']]
  if not df.shape[0] or ('test_1' if case['cross'] else 'test') not in labels:
    return None
  if case['bad'] == 'has':
    df[lab] = 'q'
  d = types.SimpleNamespace(pretest_weeks=case['pre'], runtime_weeks=case['run'], crossover_washout_weeks=case['wash'], is_crossover=case['cross'])
  before = df.copy()
  nm = lambda k: 'nope' if case['bad'] == k else k
  try:
    out = ea.pivot_time_assignment(df, design=d, start_week_id=case['start'], metric_columns=[nm('x'), 'y'], item_id_column=nm('item'), week_id_column=nm('wk'), treatment_column='group' if case['treat'] else None, time_period_column=lab)
  except ValueError as e:
    if not df.equals(before):
      return 'the table changed'
    return None if case['bad'] else f'rejected: {e}'
  if case['bad']:
    return f'{case["bad"]} accepted'
  if not df.equals(before) or list(df.columns) != list(before.columns) or not (df.dtypes == before.dtypes).all():
    return 'the table changed'
  want, keys = {}, set()
  p = (case['run'] - 2 * case['wash']) // 2
  wk = {'pretest': case['pre'], 'test': case['run'], 'test_1': p, 'test_2': p, 'washout_1': case['wash'], 'washout_2': case['wash']}
  for (_, row), l in zip(df.iterrows(), labels):
    if l is None:
      continue
    k = (row['item'], row['group']) if case['treat'] else row['item']
    keys.add(k)
    for m in ('x', 'y'):
      want[(k, m, l)] = want.get((k, m, l), 0.0) + (0.0 if row[m] != row[m] else row[m])
  periods = {l for _, _, l in want}
  if len(out) != len(keys) or set(out.index) != keys:
    return f'rows {list(out.index)[:4]} instead of {sorted(keys)[:4]}'
  if list(out.index.names) != ['item', 'group'][: 2 if case['treat'] else 1]:
    return 'index names'
  if set(out.columns) != {(m, l) for m in ('x', 'y') for l in periods} or len(out.columns) != 2 * len(periods):
    return f'columns {list(out.columns)}'
  for k in keys:
    for m, l in out.columns:
      e = want.get((k, m, l), 0.0) / wk[l]
      a = out.loc[k, (m, l)]
      if not abs(a - e) <= 1e-9 * max(1.0, abs(e)):
        return f'{k} {m} {l}: {a} instead of {e}'
