"""Week numbering and grouping to weeks."""
from props.common import *

ID = 'C12'
TITLE = 'Weeks are seven-day blocks from the start date and only complete ones are kept'
STATEMENT = (
    'Every row gets the number of whole weeks between the start date (the given one, else the earliest date) and its date, rounded down, also before the start, and the first day of that week; so the date lies within the seven days of its week. '
    'Grouping daily data gives one row per item and week that has all seven days, with each metric summed over exactly those days, and drops incomplete weeks; weekly data is passed on as it is; '
    'any other spacing of dates is rejected and the given data is not modified.')
QUANT = dict(over=['inputs'], text='every table of dates, items and metrics, every start date, before and after the dates')
WHY = 'Tests use a few weeks from one start date; the guarantee covers every date range, gaps, partial weeks and dates before the start.'
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[
    dict(name='add_week_id_and_week_start', where='feedx/data_preparation.py'),
    dict(name='group_data_to_complete_weeks', where='feedx/data_preparation.py')])
LEVEL_NOTE = ('Tables of unbounded length and arbitrary content, dates as day numbers. All paths. For grouping: every result row has seven distinct days and each metric is the sum over the rows of that item and week; every complete week appears; '
              'consecutive dates are one day apart whenever grouping happens and seven whenever the data is passed on.')
TRUSTED = ['pandas groupby/agg/shift/sort_values contracts (engine/pdstub.py)']
ASSUMPTIONS = ['dates are whole days and not missing']
CONTRACTS = []


def _week(start_given):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, Not, Implies, SV, I
    from props.frames import frame, snap, same
    from engine import core
    f = v.mod('data_preparation').add_week_id_and_week_start
    df = frame(c, {'date': 'date', 'item': 'obj', 'x': 'real'}, nulls=('x',))
    c.assume(df.dom.card() > 0)
    d0, cols = df.dom, dict(df.cols)
    kw = {}
    if start_given == 'text':
      st = SV(c.fresh('start', I).t, 'obj')
      start = core.DATEOF(st.t)
      kw = dict(experiment_start_date=st)
    elif start_given == 'fixed':
      import datetime
      kw = dict(experiment_start_date='2024-02-29')
      start = z3.IntVal(datetime.date(2024, 2, 29).toordinal())
    custom = bool(c.decide(2))
    wi, ws = ('week_id', 'week_start')
    if custom:
      wi, ws = 'w', 's'
      kw.update(week_id_column='w', week_start_column='s')
    out = f(df, 'date', **kw)
    c.prove(z3.BoolVal(out.dom.same_rows(d0)), 'same rows')
    c.prove(z3.BoolVal(list(out.cols) == ['date', 'item', 'x', wi, ws]), 'columns')
    i = d0.skolem('i')
    for k in cols:
      same(c, out.cols[k](i), cols[k](i), f'{k} unchanged')
    if start_given is None:
      j = d0.skolem('j')
      st = c.fresh('first', I).t
      mn = as_t(df['date'].min())
      c.prove(And(mn <= as_t(cols['date'](j)), d0.exists(lambda q: as_t(cols['date'](q)) == mn)), 'earliest date')
      start = mn
    d, w, s = as_t(cols['date'](i)), as_t(out.cols[wi](i)), as_t(out.cols[ws](i))
    c.prove(z3.BoolVal(out.cols[wi](i).t.sort() == z3.IntSort()), 'week number is an integer')
    c.prove(And(7 * w <= d - start, d - start < 7 * w + 7), 'whole weeks from the start, rounded down')
    c.prove(s == start + 7 * w, 'first day of the week')
    c.prove(And(s <= d, d < s + 7), 'the date lies in its week')
  return fn


for _k, _l in ((None, 'earliest date'), ('text', 'given start'), ('fixed', 'leap day start')):
  CONTRACTS.append(Contract(f'add_week_id_and_week_start ({_l})', _week(_k)))


def _group(extra):
  def fn(c, v):
    from props.spec import z3, as_t, Rt, And, Or, Not, Implies, SV
    from props.frames import frame, snap, unchanged, same
    from engine import pdstub
    f = v.mod('data_preparation').group_data_to_complete_weeks
    df = frame(c, {'date': 'date', 'item': 'obj', 'week': 'int', 'start': 'date', **({'arm': 'int'} if extra else {}), 'x': 'real', 'y': 'int'})
    s = snap(df)
    c.assume(df.dom.card() > 0)
    col = df.cols
    o = c.call(f, df, 'date', 'item', 'week', 'start', **(dict(extra_group_columns=['arm']) if extra else {}))
    unchanged(c, df, s, 'input')
    K = pdstub.key_eq
    a, b = df.dom.skolem('a'), df.dom.skolem('b')
    da, db = as_t(col['date'](a)), as_t(col['date'](b))
    # a and b are neighbouring dates
    neigh = And(da < db, Not(df.dom.exists(lambda q: And(as_t(col['date'](q)) > da, as_t(col['date'](q)) < db))))
    if not o.ok:
      c.prove(z3.BoolVal(o.raised(ValueError)), 'rejection is a ValueError')
      return
    out = o.value
    for x in (a, b):      # first rows of the two dates
      r, = pdstub.rep_fn(df.dom, [col['date']])
      c.fact(c.fresh('first', z3.IntSort()).t == r(*x[1]))
    keys = ['week', 'start', 'item'] + (['arm'] if extra else [])
    if 'date' not in out.cols and out.dom.same_rows(df.dom):
      c.prove(Implies(neigh, db - da == 7), 'passed on only when dates are a week apart')
      c.prove(z3.BoolVal(list(out.cols) == [k for k in col if k != 'date']), 'weekly: columns other than the date kept')
      for k in out.cols:
        same(c, out.cols[k](a), col[k](a), f'weekly: {k} unchanged')
      return
    c.prove(Implies(neigh, db - da == 1), 'grouped only when dates are a day apart')
    c.prove(z3.BoolVal(set(out.cols) == set(keys) | {'x', 'y'}), 'daily: columns')
    g = out.dom.skolem('g')
    mine = lambda q: And(*[K(col[k](q), out.cols[k](g)) for k in keys])
    for m in ('x', 'y'):
      want = df.dom.sum(lambda q: SV(z3.If(mine(q), Rt(col[m](q)), z3.RealVal(0))))
      c.prove(Rt(out.cols[m](g)) == want, f'{m} is the sum over the days of the item and week')
    h = out.dom.skolem('h')
    c.prove(Implies(And(*[K(out.cols[k](g), out.cols[k](h)) for k in keys]), And(*[p == q for p, q in zip(g[1], h[1])])), 'one row per item and week')
    rep = pdstub.rep_fn(df.dom, [col[k] for k in keys] + [col['date']])
    isrep = lambda q: And(*[r(*q[1]) == z for r, z in zip(rep, q[1])])
    days = df.dom.filter(lambda q: SV(mine(q))).filter(lambda q: SV(isrep(q))).card()
    c.prove(days == 7, 'seven distinct days')
    # a complete week of an item appears
    e = df.dom.skolem('e')
    minee = lambda q: And(*[K(col[k](q), col[k](e)) for k in keys])
    dayse = df.dom.filter(lambda q: SV(minee(q))).filter(lambda q: SV(isrep(q))).card()
    # the aggregation refers to the first row of the group; same group, same count
    first = pdstub.rep_fn(df.dom, [col[k] for k in keys])
    fe = (0, tuple(r(*e[1]) for r in first))
    minef = lambda q: And(*[K(col[k](q), col[k](fe)) for k in keys])
    from props.frames import same_card
    A, Bd = df.dom.filter(lambda q: SV(minee(q))).filter(lambda q: SV(isrep(q))), df.dom.filter(lambda q: SV(minef(q))).filter(lambda q: SV(isrep(q)))
    same_card(c, A, Bd, 'the first row of a group stands for the group')
    c.prove(Implies(dayse == 7, out.dom.exists(lambda q: And(*[K(out.cols[k](q), col[k](e)) for k in keys]))), 'every complete week is kept')
  return fn


CONTRACTS.append(Contract('group_data_to_complete_weeks', _group(False)))
CONTRACTS.append(Contract('group_data_to_complete_weeks (extra group column)', _group(True)))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    yield dict(start=rng.choice([None, None, '2024-02-26', '2024-03-04', '2024-01-01', '2023-12-31', '2024-06-01', '1999-12-31', '2024-03-01']), days=rng.choice([1, 2, 6, 7, 8, 13, 14, 15, 20, 35, 400]), step=rng.choice([1, 1, 1, 7, 2, 14]), first='2024-02-26',
               items=rng.choice([1, 2, 5]), gap=rng.choice([None, None, None, 'date', 'item']), extra=rng.random() < 0.3, order=rng.random() < 0.7, idx=rng.random() < 0.4, seed=rng.randrange(10**6), names=rng.random() < 0.3, dup=rng.random() < 0.2)


def check(case):
  import numpy as np
  import pandas as pd
  import datetime
  from feedx import data_preparation as dp
  r = np.random.default_rng(case['seed'])
  days = list(pd.date_range(case['first'], periods=case['days'] if case['step'] == 1 else min(case['days'], 40), freq=f"{case['step']}D"))
  ids = [f'i{k}' for k in range(case['items'])]
  rows = [(d, i) for d in days for i in ids]
  if case['gap'] == 'date' and len(days) > 2:
    g = days[r.integers(1, len(days) - 1)]
    rows = [x for x in rows if x[0] != g]
  if case['gap'] == 'item' and len(rows) > 2:
    rows.pop(int(r.integers(0, len(rows))))
  if case['dup']:
    rows.append(rows[-1])
  df = pd.DataFrame(rows, columns=['date', 'item'])
  df['x'] = r.normal(size=len(df))
  df['y'] = r.integers(0, 5, len(df))
  if case['extra']:
    df['arm'] = df['item'].map({i: int(k % 2) for k, i in enumerate(ids)})
  if case['order']:
    df = df.sample(frac=1.0, random_state=1)
  if case['idx']:
    df.index = r.permutation(len(df)) + 3
  df0 = df.copy()
  wi, ws = ('wk', 'wst') if case['names'] else ('week_id', 'week_start')
  kw = dict(week_id_column=wi, week_start_column=ws) if case['names'] else {}
  out = dp.add_week_id_and_week_start(df.copy(), 'date', **(dict(experiment_start_date=case['start']) if case['start'] else {}), **kw)
  start = pd.Timestamp(case['start']) if case['start'] else df0['date'].min()
  if list(out.columns) != list(df0.columns) + [wi, ws] or not out[list(df0.columns)].equals(df0):
    return 'other columns changed'
  for d, w, s in zip(out['date'], out[wi], out[ws]):
    k = (d - start).days
    if w != k // 7 or s != start + datetime.timedelta(days=7 * (k // 7)):
      return f'{d.date()} with start {start.date()}: week {w} starting {s}, expected {k // 7}'
  if not pd.api.types.is_integer_dtype(out[wi]) or not pd.api.types.is_datetime64_any_dtype(out[ws]):
    return 'types of the week columns'
  # grouping
  o0 = out.copy()
  u = sorted(set(df0['date']))
  gaps = {(b - a).days for a, b in zip(u, u[1:])}
  extra = ['arm'] if case['extra'] else []
  try:
    g = dp.group_data_to_complete_weeks(out, 'date', 'item', wi, ws, **(dict(extra_group_columns=extra) if extra else {}))
  except ValueError:
    return None if gaps - {1} and gaps - {7} else 'evenly spaced dates rejected'
  if not out.equals(o0):
    return 'input modified'
  if gaps - {1} and gaps - {7}:
    return f'dates with gaps {gaps} accepted'
  if gaps == {7}:
    return None if g.reset_index(drop=True).equals(o0.drop(columns=['date']).reset_index(drop=True)) else 'weekly data changed'
  want = {}
  for a in o0.to_dict('records'):
    t = want.setdefault((a[wi], a[ws], a['item']) + tuple(a[e] for e in extra), [set(), 0.0, 0])
    t[0].add(a['date'])
    t[1] += a['x']
    t[2] += a['y']
  want = {k: t for k, t in want.items() if len(t[0]) == 7}
  got = {(a[wi], a[ws], a['item']) + tuple(a[e] for e in extra): a for a in g.to_dict('records')}
  if len(got) != len(g) or set(got) != set(want):
    return f'{len(g)} item-weeks, expected {len(want)}'
  if set(g.columns) != {wi, ws, 'item', 'x', 'y'} | set(extra):
    return f'columns {list(g.columns)}'
  for k, a in got.items():
    if not close(a['x'], want[k][1], 1e-9, 1e-9) or a['y'] != want[k][2]:
      return f'totals of {k} differ'
  return None
