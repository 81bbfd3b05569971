"""From raw tables to validated data: the two preparation pipelines."""
from props.common import *

ID = 'C17'
TITLE = 'The preparation pipelines return exactly the complete, correct panel, or reject'
STATEMENT = (
    'Preparing historical data returns one row per (sampled) item and complete week, holding the week totals of the raw metric, with rows that were absent counted as zero and weeks counted from the first date; an unknown kind of primary metric is rejected. '
    'Preparing experiment data returns one row per assigned item and date, with its treatment assignment, the raw metrics (zero where absent, also for assigned items without any row), weeks counted from the given start date, the time period and the requested at-least-one metrics; items that were not assigned are dropped. '
    'Whatever is returned has passed validation, and the raw tables are not changed.')
QUANT = dict(over=['inputs', 'configurations'], text='every raw table, assignment table, set of metrics, design and skipped checks')
WHY = 'Tests run the pipelines on one synthetic table; the guarantee covers every combination of absent rows, item naming, requested metrics, start dates and skipped checks.'
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[
    dict(name='prepare_and_validate_historical_data', where='feedx/data_preparation.py'),
    dict(name='prepare_and_validate_experiment_data', where='feedx/data_preparation.py')])
LEVEL_NOTE = ('Modular: each pipeline is checked against the contracts of the functions it calls (C11 to C16, C19): the right table and arguments reach each step, in an order that yields the stated result, and exactly the returned table has been validated. '
              'The end to end result is checked by the runtime contract only.')
TRUSTED = ['pandas merge contract (engine/pdstub.py)']
ASSUMPTIONS = ['no missing item ids, dates or assignments in the raw tables']
CONTRACTS = []
STD = ['clicks', 'impressions', 'total_cost', 'conversions', 'total_conversion_value']
NAMES = ['standardize_column_names_and_types', 'fill_missing_rows_with_zeros', 'add_week_id_and_week_start', 'group_data_to_complete_weeks', 'downsample_items', 'validate_historical_data', 'validate_experiment_data', 'add_at_least_one_metrics']


def _restore(v):
  dp = v.mod('data_preparation')
  return {**{('data_preparation', n): getattr(dp, n) for n in NAMES}, ('experiment_analysis', 'add_time_period_column'): v.mod('experiment_analysis').add_time_period_column}


def _bind(f, a, k):
  """the arguments by parameter name, defaults included."""
  import inspect
  b = inspect.signature(f).bind(*a, **k)
  b.apply_defaults()
  return b.arguments


class _Steps:
  """replaces functions of a module by recorders: fn(args) -> result."""

  def __init__(self, mod):
    self.mod, self.log = mod, []

  def put(self, name, result):
    orig = getattr(self.mod, name)
    orig = getattr(orig, '_orig', orig)

    def f(*a, **k):
      args = _bind(orig, a, k)
      r = result(args)
      self.log.append((name, args, r))
      return r
    f._orig = orig
    setattr(self.mod, name, f)

  def calls(self, name):
    return [(a, r) for n, a, r in self.log if n == name]


def _content(c, a, b, what):
  """a and b hold the same rows and columns."""
  from props.spec import z3
  from props.frames import same
  c.prove(z3.BoolVal(a.dom.same_rows(b.dom) and list(a.cols) == list(b.cols)), f'{what}: rows and columns')
  i = a.dom.skolem('i')
  for k in a.cols:
    if k in b.cols:
      same(c, a.cols[k](i), b.cols[k](i), f'{what}: {k}')


@contract(CONTRACTS, 'prepare_and_validate_historical_data', subst=_restore)
def _hist(c, v):
  from props.spec import z3
  from props.frames import frame, snap, unchanged
  dp = v.mod('data_preparation')
  raw = frame(c, {'day': 'date', 'sku': 'obj', 'm': 'real', 'left': 'real'}, name='raw')
  s = snap(raw)
  st = _Steps(dp)
  kind = (STD + ['other', 'sales', ''])[c.decide(8)]
  metric = 'm' if kind == 'other' else kind
  new = lambda name, cols: (lambda args: frame(c, cols, name=name))
  st.put(NAMES[0], new('std', {'item_id': 'obj', 'date': 'date', metric: 'real'}))
  st.put(NAMES[1], new('filled', {'item_id': 'obj', 'date': 'date', metric: 'real'}))
  st.put(NAMES[2], new('weeks', {'item_id': 'obj', 'date': 'date', metric: 'real', 'week_id': 'int', 'week_start': 'date'}))
  st.put(NAMES[3], new('grouped', {'item_id': 'obj', 'week_id': 'int', 'week_start': 'date', metric: 'real'}))
  st.put(NAMES[4], new('sampled', {'item_id': 'obj', 'week_id': 'int', 'week_start': 'date', metric: 'real'}))
  bad = []

  def validate(args):
    if c.decide(2):
      bad.append(1)
      raise ValueError('invalid')
  st.put(NAMES[5], validate)
  rng, skip = object(), [None, ['no_nulls']][c.decide(2)]
  frac = None if c.decide(2) else c.real('fraction')
  o = c.call(dp.prepare_and_validate_historical_data, raw, item_id_column='sku', date_column='day', primary_metric=kind, primary_metric_column='m', rng=rng, **(dict(item_sample_fraction=frac) if frac is not None else {}), **(dict(skip_validation_checks=skip) if skip else {}))
  unchanged(c, raw, s, 'raw data')
  ok = lambda e, n: c.prove(z3.BoolVal(bool(e)), n)
  if kind not in STD + ['other']:
    ok(o.raised(ValueError), 'unknown kind of metric rejected')
    return
  chain = [st.calls(n) for n in NAMES[:6]]
  if bad:
    ok(o.raised(ValueError), 'invalid data is not returned')
    return
  ok(o.ok and all(len(x) == 1 for x in chain), 'each step once')
  (a0, r0), (a1, r1), (a2, r2), (a3, r3), (a4, r4), (a5, _) = [x[0] for x in chain]
  frame_of = lambda a: next(x for x in a.values() if hasattr(x, 'dom'))
  _content(c, frame_of(a0), raw, 'raw data is what is standardised')
  ok(a0['item_id_column'] == 'sku' and a0['date_column'] == 'day', 'item and date columns')
  for m in STD:
    ok(a0[m + '_column'] == ('m' if m == kind else None), f'{m} column')
  ok((a0['custom_columns'] or {}) == ({'m': 'm'} if kind == 'other' else {}), 'other metric keeps its name')
  fns = a0['custom_parse_functions'] or {}
  if kind == 'other':
    ok(set(fns) == {'m'}, 'other metric is converted')
    x = raw['m']
    ok(fns['m'](x).dtype.name == 'float', 'other metric becomes a number')
  for a, r, n in ((a1, r0, 'filling'), (a2, r1, 'weeks'), (a3, r2, 'grouping'), (a4, r3, 'sampling'), (a5, r4, 'validation')):
    _content(c, frame_of(a), r, f'{n} works on the previous result')
  ok(a1['item_id_column'] == 'item_id' and a1['date_column'] == 'date', 'absent rows by item and date')
  ok(a2['date_column'] == 'date' and a2.get('experiment_start_date') is None and a2['week_id_column'] == 'week_id' and a2['week_start_column'] == 'week_start', 'weeks from the first date')
  ok(a3['date_column'] == 'date' and a3['item_id_column'] == 'item_id' and a3['week_id_column'] == 'week_id' and a3['week_start_column'] == 'week_start' and not a3['extra_group_columns'], 'grouped per item and week')
  ok(a4['item_id_column'] == 'item_id' and a4['rng'] is rng, 'items sampled with the given generator')
  if frac is None:
    ok(a4['downsample_fraction'] == 1.0, 'nothing is dropped by default')
  else:
    from props.spec import Rt
    c.prove(Rt(a4['downsample_fraction']) == Rt(frac), 'the given fraction')
  ok(a5['item_id_column'] == 'item_id' and a5['date_column'] == 'week_start' and a5['week_id_column'] == 'week_id' and a5['primary_metric_column'] == metric and list(a5['skip_validation_checks'] or []) == list(skip or []), 'validation of the columns')
  _content(c, o.value, r4, 'what has been validated is returned')


def _exp(ids):
  def fn(c, v):
    from props.spec import z3, as_t, Rt, And, Or, Not, Implies, I
    from props.frames import frame, snap, unchanged, same
    from engine import pdstub, npstub
    dp, ea = v.mod('data_preparation'), v.mod('experiment_analysis')
    K = pdstub.key_eq

    def has(x, y):
      n = pdstub.isnull(x)
      if z3.is_true(z3.simplify(n)):
        return z3.BoolVal(False)
      return And(Not(n), Rt(x) == Rt(y))
    raw = frame(c, {'day': 'date', 'sku': ids, 'c': 'real', 'm': 'real', 'left': 'real'}, name='raw')
    arms = frame(c, {'arm': 'int', 'sku': ids, 'note': 'real'}, name='arms')
    c.assume(raw.dom.card() > 0)
    c.assume(arms.dom.card() > 0)
    s, s2 = snap(raw), snap(arms)
    from props.frames import populated
    known = pdstub.unique_dom(arms.dom, [lambda i: npstub.to_str(arms.cols['sku'](i))])
    populated(c, known)
    w = arms.dom.skolem('some')
    c.fact(c.fresh('first', I).t == pdstub.rep_fn(arms.dom, [lambda i: npstub.to_str(arms.cols['sku'](i))])[0](w[1][0]))
    st = _Steps(dp)
    metrics = {'clicks': 'real', 'm': 'real'}

    def filled(args):
      return frame(c, {'item_id': 'obj', 'date': 'date', **metrics}, name='filled')
    st.put(NAMES[1], filled)

    def weeks(args):
      out = args['data'].copy()
      f = frame(c, {'week_id': 'int', 'week_start': 'date'}, name='weeks')
      for k in f.cols:
        out[k] = pdstub.Series(out.dom, f.cols[k], out.space)
      return out
    st.put(NAMES[2], weeks)

    def alo(args):
      out = args['data']
      f = frame(c, {'any': 'int'}, name='alo')
      for k in (args['metrics'] or {}).values():
        out[k] = pdstub.Series(out.dom, f.cols['any'], out.space)
      return out
    st.put(NAMES[7], alo)
    sp = _Steps(ea)

    def period(args):
      out = args['data'].copy()
      f = frame(c, {'period': 'obj'}, name='period')
      out['time_period'] = pdstub.Series(out.dom, f.cols['period'], out.space)
      return out
    sp.put('add_time_period_column', period)
    bad = []

    def validate(args):
      if c.decide(2):
        bad.append(1)
        raise ValueError('invalid')
    st.put(NAMES[6], validate)
    design = object()
    skip = [None, ['no_nulls']][c.decide(2)]
    extra = {}
    if c.decide(2):
      extra = dict(at_least_one_metrics={'clicks': 'any'}, can_be_negative_metric_columns=['m'], experiment_has_concluded=False, skip_validation_checks=['no_nulls'])
    o = c.call(dp.prepare_and_validate_experiment_data, daily_performance_data=raw, treatment_assignment_data=arms, design=design, experiment_start_date='2024-01-08', item_id_column='sku', date_column='day', treatment_assignment_column='arm', clicks_column='c', other_metric_columns=['m'], **extra)
    unchanged(c, raw, s, 'raw data')
    unchanged(c, arms, s2, 'assignments')
    ok = lambda e, n: c.prove(z3.BoolVal(bool(e)), n)
    if bad:
      ok(o.raised(ValueError), 'invalid data is not returned')
      return
    ok(o.ok, f'accepted {o.exc!r}' if not o.ok else 'accepted')
    out = o.value
    (a1, F), = st.calls(NAMES[1])
    X = a1['data']
    ok(a1['item_id_column'] == 'item_id' and a1['date_column'] == 'date', 'absent rows by item and date')
    ok(set(X.cols) == {'item_id', 'date', 'clicks', 'm'}, 'columns before filling')
    name = lambda x: npstub.to_str(x)
    # every raw row reaches the filling step, with its metrics
    i = raw.dom.skolem('raw')
    c.prove(X.dom.exists(lambda q: And(K(X.cols['item_id'](q), name(raw.cols['sku'](i))), K(X.cols['date'](q), raw.cols['day'](i)), has(X.cols['clicks'](q), raw.cols['c'](i)), has(X.cols['m'](q), raw.cols['m'](i)))), 'no raw row is lost')
    # so does every assigned item
    j = arms.dom.skolem('assigned')
    def there():
      if c.decide(2):
        w = raw.dom.skolem('has')
        c.assume(K(name(raw.cols['sku'](w)), name(arms.cols['sku'](j))))
      else:
        c.assume(Not(raw.dom.exists(lambda q: K(name(raw.cols['sku'](q)), name(arms.cols['sku'](j))))))
    there()
    for r in list(c.data.get('reps', {}).values()):
      if len(r) == 1 and r[0].arity() == 1:
        c.fact(c.fresh('first', I).t == r[0](j[1][0]))
    c.prove(X.dom.exists(lambda q: K(X.cols['item_id'](q), name(arms.cols['sku'](j)))), 'every assigned item is filled in')
    for b in range(len(X.dom.branches)):
      with c.scope():
        q = X.dom.skolem(f'x{b}', b)
        c.prove(raw.dom.exists(lambda t: K(raw.cols['day'](t), X.cols['date'](q))), 'no other date appears')
        c.prove(Or(raw.dom.exists(lambda t: K(name(raw.cols['sku'](t)), X.cols['item_id'](q))), arms.dom.exists(lambda t: K(name(arms.cols['sku'](t)), X.cols['item_id'](q)))), 'no other item appears')
        val = lambda m: Or(pdstub.isnull(X.cols[m](q)), raw.dom.exists(lambda t: And(K(name(raw.cols['sku'](t)), X.cols['item_id'](q)), K(raw.cols['day'](t), X.cols['date'](q)), has(X.cols[m](q), raw.cols[{'clicks': 'c', 'm': 'm'}[m]](t)))))
        for m in ('clicks', 'm'):
          c.prove(val(m), f'{m}: missing or a raw value of that item and date')
    # steps after filling
    (a2, _), = st.calls(NAMES[2])
    ok(a2['date_column'] == 'date' and a2['experiment_start_date'] == '2024-01-08' and a2['week_id_column'] == 'week_id' and a2['week_start_column'] == 'week_start', 'weeks from the start date')
    ok(a2['data'].dom.same_rows(F.dom), 'weeks of the filled data')
    (a3, _), = sp.calls('add_time_period_column')
    ok(a3['design'] is design and a3['start_week_id'] == 0 and a3['week_id_column'] == 'week_id', 'time periods from week 0')
    ok('week_id' in a3['data'].cols, 'time periods of the weeks')
    for a4, _ in st.calls(NAMES[7]):
      ok((a4['metrics'] or {}) == extra.get('at_least_one_metrics', {}), 'at-least-one metrics as asked')
    ok(st.calls(NAMES[7]) or not extra, 'at-least-one metrics added')
    (a5, _), = st.calls(NAMES[6])
    _content(c, out, next(x for x in a5.values() if hasattr(x, 'dom')), 'what has been validated is returned')
    ok(a5['design'] is design and a5['experiment_start_date'] == '2024-01-08' and a5['item_id_column'] == 'item_id' and a5['date_column'] == 'date' and a5['week_id_column'] == 'week_id' and a5['treatment_assignment_column'] == 'treatment_assignment', 'validation against the design')
    ok(sorted(a5['metric_columns']) == ['clicks', 'm'] and list(a5['can_be_negative_metric_columns'] or []) == extra.get('can_be_negative_metric_columns', []) and a5['experiment_has_concluded'] == extra.get('experiment_has_concluded', True) and list(a5['skip_validation_checks'] or []) == extra.get('skip_validation_checks', []), 'validation as asked')
    # the result: the filled rows of assigned items with their assignment
    ok(set(F.cols) | {'week_id', 'week_start', 'time_period', 'treatment_assignment', 'note'} | ({'any'} if extra else set()) >= set(out.cols) >= set(F.cols) | {'week_id', 'week_start', 'time_period', 'treatment_assignment'} | ({'any'} if extra else set()), 'columns')
    f = F.dom.skolem('f')
    c.prove(Implies(K(F.cols['item_id'](f), name(arms.cols['sku'](j))), out.dom.exists(lambda q: And(*[K(out.cols[k](q), F.cols[k](f)) for k in F.cols], as_t(out.cols['treatment_assignment'](q)) == as_t(arms.cols['arm'](j))))), 'rows of assigned items are kept, with the assignment')
    for b in range(len(out.dom.branches)):
      with c.scope():
        q = out.dom.skolem(f'o{b}', b)
        c.prove(F.dom.exists(lambda t: And(*[K(out.cols[k](q), F.cols[k](t)) for k in F.cols])), 'rows come from the filled data')
        c.prove(arms.dom.exists(lambda t: And(K(out.cols['item_id'](q), name(arms.cols['sku'](t))), as_t(out.cols['treatment_assignment'](q)) == as_t(arms.cols['arm'](t)))), 'only assigned items, each with its assignment')
  return fn


for _k in ('obj', 'int'):
  CONTRACTS.append(Contract(f'prepare_and_validate_experiment_data ({_k} ids)', _exp(_k), subst=_restore))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    yield dict(kind=rng.choice(['hist', 'exp', 'exp']), items=rng.choice([1, 2, 4, 8]), days=rng.choice([7, 8, 13, 14, 21, 30, 60]), gap=rng.choice([1, 1, 1, 7]), absent=rng.choice([0.0, 0.2, 0.6]), ids=rng.choice(['str', 'int', 'numstr', 'mixed']), metric=rng.choice(STD + ['other', 'other', 'sales']), frac=rng.choice([None, 1.0, 0.5, 0.3]),
               extra=rng.choice([0, 0, 1, 3]), unassigned=rng.choice([0, 0, 1, 2]), ask=[m for m in STD if rng.random() < 0.4], other=rng.choice([0, 0, 1, 2]), alo=rng.random() < 0.4, cross=rng.random() < 0.4, pre=rng.choice([0, 0, 1, 2]), wash=rng.choice([0, 0, 1]), offset=rng.choice([0, 0, 7, 14, 3, -7]),
               skip=rng.choice(['all', 'all', 'none']), neg=rng.random() < 0.3, armint=rng.choice(['int', 'bool', 'str', 'float']), names=rng.random() < 0.4, strdate=rng.random() < 0.5, shuffle=rng.random() < 0.6, concluded=rng.random() < 0.5, seed=rng.randrange(10**6), salted=rng.random() < 0.7)


def _raw(case, r):
  import pandas as pd
  n = case['items'] + case['unassigned']
  ids = dict(str=[f'i{k}' for k in range(n)], int=[100 + k for k in range(n)], numstr=[f'{k:03d}' for k in range(n)], mixed=[k if k % 2 else f'k{k}' for k in range(n)])[case['ids']]
  days = list(pd.date_range('2024-01-01', periods=max(2, case['days'] // case['gap']), freq=f"{case['gap']}D"))
  cells = [(i, d) for d in days for i in ids if r.random() >= case['absent']]
  for d in days:      # every date occurs
    if not any(x[1] == d for x in cells):
      cells.append((ids[0], d))
  for i in ids:
    if not any(x[0] == i for x in cells):
      cells.append((i, days[int(r.integers(0, len(days)))]))
  return ids, days, cells


def check(case):
  import warnings
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    return _check_hist(case) if case['kind'] == 'hist' else _check_exp(case)


def _check_hist(case):
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  r = np.random.default_rng(case['seed'])
  ids, days, cells = _raw(case, r)
  val = {x: int(r.integers(0, 50)) for x in cells}
  order = [cells[int(k)] for k in r.permutation(len(cells))] if case['shuffle'] else cells
  I, D, M = ('sku', 'day', 'val') if case['names'] else ('item_id', 'date', case['metric'] if case['metric'] != 'other' else 'm')
  df = pd.DataFrame({D: [d.date().isoformat() if case['strdate'] else d for _, d in order], 'noise': range(len(order)), I: [i for i, _ in order], M: [val[x] for x in order]})
  before = df.copy()
  kw = dict(item_sample_fraction=case['frac']) if case['frac'] is not None else {}
  skip = ['no_nulls', 'no_duplicate_items_per_date', 'dates_are_daily_or_weekly', 'week_ids_are_consecutive_integers', 'all_metrics_are_finite', 'all_metrics_are_non_negative'] if case['skip'] == 'all' else None
  call = lambda: dp.prepare_and_validate_historical_data(df, item_id_column=I, date_column=D, primary_metric=case['metric'], primary_metric_column=M, rng=np.random.RandomState(1), skip_validation_checks=skip, **kw)
  if case['metric'] == 'sales':
    try:
      call()
    except ValueError:
      return None
    return 'unknown kind of metric accepted'
  weeks = {}
  for d in days:
    weeks.setdefault((d - days[0]).days // 7, []).append(d)
  full = [w for w in weeks if case['gap'] == 7 or len(weeks[w]) == 7]
  if not full:
    return None
  out = call()
  if not df.equals(before):
    return 'the raw table changed'
  name = M if case['metric'] == 'other' else case['metric']
  if sorted(out.columns) != sorted(['item_id', 'week_id', 'week_start', name]):
    return f'columns {list(out.columns)}'
  got = {}
  for x in out.to_dict('records'):
    k = (x['item_id'], x['week_id'])
    if k in got:
      return f'{k} twice'
    got[k] = x
  items = {i for i, _ in got}
  n = len(ids)
  want_n = n if case['frac'] in (None, 1.0) else int(n * case['frac'])
  if len(items) != want_n and case['frac'] in (None, 1.0):
    return f'{len(items)} items instead of {want_n}'
  if not items <= {str(i) for i in ids} or set(got) != {(i, w) for i in items for w in full}:
    return f'rows are not items x complete weeks: {sorted(got)[:6]}'
  for (i, w), x in got.items():
    t = sum(v for (j, d), v in val.items() if str(j) == i and d in weeks[w])
    if abs(x[name] - t) > 1e-9 or x['week_start'] != days[0] + pd.Timedelta(days=7 * w):
      return f'{i} week {w}: {x} instead of total {t}'


def _period(w, d):
  if -d.pretest_weeks <= w < 0:
    return 'pretest'
  if not 0 <= w < d.runtime_weeks:
    return None
  if not d.is_crossover:
    return 'test'
  o = d.crossover_washout_weeks
  p = (d.runtime_weeks - 2 * o) // 2
  for a, b in (('washout_1', o), ('test_1', p), ('washout_2', o), ('test_2', p)):
    if w < b:
      return a
    w -= b
  return None


def _check_exp(case):
  import datetime
  import types
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  from feedx import experiment_design as ed
  r = np.random.default_rng(case['seed'])
  ids, days, cells = _raw(case, r)
  assigned = ids[:case['items']] + [dict(str=f'new{k}', int=900 + k, numstr=f'9{k:02d}', mixed=f'new{k}')[case['ids']] for k in range(case['extra'])]
  if case['shuffle']:
    assigned = [assigned[int(k)] for k in r.permutation(len(assigned))]
  coin = ed.Coinflip('salty')
  arm = {str(i): int(coin(str(i))) if case['salted'] else int(r.integers(0, 2)) for i in assigned}
  order = [cells[int(k)] for k in r.permutation(len(cells))] if case['shuffle'] else cells
  I, D = ('sku', 'day') if case['names'] else ('item_id', 'date')
  A = 'grp' if case['names'] else 'treatment_assignment'
  raw = {m: f'raw_{m}' if case['names'] else m for m in case['ask']}
  others = [f'm{k}' for k in range(case['other'])]
  if not raw and not others:
    others = ['m0']
  clean = list(raw) + others
  vals = {m: {x: float(r.integers(-3 if case['neg'] and m in others else 0, 9)) for x in cells} for m in clean}
  cols = {D: [d.date().isoformat() if case['strdate'] else d for _, d in order], 'noise': ['z'] * len(order), I: [i for i, _ in order]}
  for m in clean:
    cols[raw.get(m, m)] = [vals[m][x] if m not in others or r.random() < 2 else 0 for x in order]
  df = pd.DataFrame(cols)
  conv = dict(int=int, bool=bool, str=str, float=float)[case['armint']]
  if case['armint'] == 'str':
    conv = lambda x: str(int(x))
  ta = pd.DataFrame({I: assigned, A: [conv(arm[str(i)]) for i in assigned]})
  twice = str(assigned[case['seed'] % len(assigned)]) if case['seed'] % 7 == 0 else None    # an item listed once more, with the other assignment
  if twice is not None:
    ta = pd.concat([ta, pd.DataFrame({I: [i for i in assigned if str(i) == twice], A: [conv(1 - arm[twice])]})], ignore_index=True)
  b1, b2 = df.copy(), ta.copy()
  start = days[0] + pd.Timedelta(days=case['offset'] + 7 * case['pre'])
  design = types.SimpleNamespace(n_items_after_pre_trim=len(assigned), pretest_weeks=case['pre'], runtime_weeks=[2, 3, 4, 6][case['seed'] % 4] if case['cross'] else 1 + case['seed'] % 4, is_crossover=case['cross'], crossover_washout_weeks=case['wash'] if case['cross'] else 0, primary_metric=clean[0], coinflip_salt='salty')
  alo = {clean[0]: 'any_' + clean[0]} if case['alo'] else None
  kw = {m + '_column': raw[m] for m in raw}
  skip = sorted(dp.ValidationChecks._CHECKS) if case['skip'] == 'all' else None
  try:
    out = dp.prepare_and_validate_experiment_data(daily_performance_data=df, treatment_assignment_data=ta, design=design, experiment_start_date=start.date().isoformat(), item_id_column=I, date_column=D, treatment_assignment_column=A, other_metric_columns=others or None,
                                                  can_be_negative_metric_columns=others if case['neg'] else None, at_least_one_metrics=alo, experiment_has_concluded=case['concluded'], skip_validation_checks=skip, **kw)
  except ValueError as e:
    if not df.equals(b1) or not ta.equals(b2):
      return 'a raw table changed'
    if case['skip'] == 'all' or 'Validation check' not in str(e):
      return f'rejected: {e}'
    if twice is not None:
      return None
    n1 = sum(arm.values())
    import math
    n = len(assigned)
    srm = 2.0 * sum(math.comb(n, j) for j in range(min(n1, n - n1) + 1)) / 2.0**n >= 0.0011
    covered = start - pd.Timedelta(days=7 * case['pre']) >= days[0] and (not case['concluded'] or start + pd.Timedelta(days=7 * (design.runtime_weeks - 1)) <= days[-1])
    inside = all(_period((d - start).days // 7, design) for d in days)   # a date outside every period has no period: a missing value
    if case['salted'] and srm and covered and inside:
      return f'good data rejected: {e}'
    return None
  if not df.equals(b1) or not ta.equals(b2):
    return 'a raw table changed'
  if twice is not None:
    if skip is None:
      return f'{twice} is assigned to both groups, but accepted'
    x = out[out['item_id'] == twice]
    if set(x['treatment_assignment']) != {0, 1} or len(x) != 2 * len(days) or set(out['item_id']) != set(arm):
      return f'{twice} is assigned to both groups, but returned with {sorted(set(x["treatment_assignment"]))}'
    return None
  want_cols = {'item_id', 'date', 'week_id', 'week_start', 'time_period', 'treatment_assignment'} | set(clean) | (set(alo.values()) if alo else set())
  if set(out.columns) != want_cols:
    return f'columns {sorted(out.columns)}'
  seen = set()
  at = {(str(i), d): (i, d) for i, d in cells}
  for x in out.to_dict('records'):
    k = (x['item_id'], x['date'])
    if k in seen:
      return f'{k} twice'
    seen.add(k)
    if x['item_id'] not in arm:
      return f'unassigned item {x["item_id"]}'
    if x['treatment_assignment'] != arm[x['item_id']]:
      return f'{k}: treatment {x["treatment_assignment"]}'
    w = (x['date'] - start).days // 7
    if x['week_id'] != w or x['week_start'] != start + pd.Timedelta(days=7 * w):
      return f'{k}: week {x["week_id"]} instead of {w}'
    p = x['time_period']
    p = None if p != p else p
    if p != _period(w, design):
      return f'{k}: period {p} instead of {_period(w, design)} in week {w}'
    for m in clean:
      v = vals[m][at[k]] if k in at else 0.0
      if x[m] != v:
        return f'{k}: {m} = {x[m]} instead of {v}'
    for m, a in (alo or {}).items():
      if x[a] != int(x[m] > 0):
        return f'{k}: {a} = {x[a]} for {x[m]}'
  if seen != {(i, d) for i in arm for d in days}:
    return 'rows are not items x dates'
