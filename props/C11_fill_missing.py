"""Completing the panel of items and dates."""
from props.common import *

ID = 'C11'
TITLE = 'Completing the panel fills only missing item-dates, with zeros'
STATEMENT = (
    'After completion every item of the data has a row for every date of the data, rows that existed keep exactly their values (missing values become zero), rows that did not exist have zero in every metric, and no other item or date appears; '
    'so the total of every metric, overall, per item and per date, is unchanged. '
    'Data without duplicate item-dates stays without duplicates, column types stay, missing key columns are rejected, and the given data is not modified.')
QUANT = dict(over=['inputs'], text='every table of items, dates and any number of metrics, any pattern of missing rows')
WHY = 'Tests complete tables of a few rows; the guarantee is about every pattern of missing rows.'
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[dict(name='fill_missing_rows_with_zeros', where='feedx/data_preparation.py')])
LEVEL_NOTE = 'Tables of unbounded length and arbitrary content (two metric columns, possibly with missing values; columns are treated alike), all paths.'
TRUSTED = ['pandas drop_duplicates and merge (cross, left) contracts (engine/pdstub.py)']
ASSUMPTIONS = ['items and dates are not missing']
CONTRACTS = []


def _fill(names):
  def fn(c, v):
    from props.spec import z3, as_t, Rt, And, Or, Not, Implies, SV
    from props.frames import frame, snap, unchanged, same
    from engine import pdstub
    f = v.mod('data_preparation').fill_missing_rows_with_zeros
    it, da = names or ('item_id', 'date')
    df = frame(c, {it: 'obj', da: 'date', 'clicks': 'real', 'cost': 'int'}, nulls=('clicks',))
    s = snap(df)
    item, date = df.cols[it], df.cols[da]
    out = f(df, **(dict(item_id_column=it, date_column=da) if names else {}))
    unchanged(c, df, s, 'input')
    c.prove(z3.BoolVal(set(out.cols) == set(df.cols)), 'columns')
    oi, od = out.cols[it], out.cols[da]
    K = pdstub.key_eq
    for b in range(len(out.dom.branches)):
      with c.scope():
        o = out.dom.skolem(f'out{b}', b)
        c.prove(df.dom.exists(lambda q: K(item(q), oi(o))), 'no other item appears')
        c.prove(df.dom.exists(lambda q: K(date(q), od(o))), 'no other date appears')
        # a row with this key in the data determines the values; otherwise zero
        i = df.dom.skolem(f'i{b}')
        there = And(K(item(i), oi(o)), K(date(i), od(o)))
        absent = Not(df.dom.exists(lambda q: And(K(item(q), oi(o)), K(date(q), od(o)))))
        for m in ('clicks', 'cost'):
          y = out.cols[m](o)
          c.prove(Not(pdstub.isnull(y)), f'{m}: nothing missing')
          c.prove(Implies(absent, Rt(y) == 0), f'{m}: zero where there was no row')
          # rows of the output come from a row of the data with the same key, with its value
          c.prove(Or(absent, df.dom.exists(lambda q: And(K(item(q), oi(o)), K(date(q), od(o)), Or(And(Not(pdstub.isnull(df.cols[m](q))), Rt(df.cols[m](q)) == Rt(y)), And(pdstub.isnull(df.cols[m](q)), Rt(y) == 0))))),
                  f'{m}: the value of a row with that item and date')
        c.prove(z3.BoolVal(out[('cost')].dtype.name == 'int'), 'integer column stays integer')
    # every pair of an item and a date is present
    a, b2 = df.dom.skolem('a'), df.dom.skolem('b')
    for g, x in ((item, a), (date, b2)):   # name the first row of the item and of the date
      r, = pdstub.rep_fn(df.dom, [g])
      c.fact(c.fresh('first', z3.IntSort()).t == r(*x[1]))
    pair = lambda q: And(K(item(q), item(a)), K(date(q), date(b2)))
    if c.decide(2):
      w = df.dom.skolem('w')
      c.assume(pair(w))
    else:
      c.assume(Not(df.dom.exists(pair)))
    c.prove(out.dom.exists(lambda q: And(K(oi(q), item(a)), K(od(q), date(b2)))), 'every item has every date')
    # every row of the data is still there
    c.prove(out.dom.exists(lambda q: And(K(oi(q), item(a)), K(od(q), date(a)), Rt(out.cols['cost'](q)) == Rt(df.cols['cost'](a)))), 'no row is lost')
  return fn


CONTRACTS.append(Contract('fill_missing_rows_with_zeros', _fill(None)))
CONTRACTS.append(Contract('fill_missing_rows_with_zeros (other column names)', _fill(('sku', 'day'))))


@contract(CONTRACTS, 'fill_missing_rows_with_zeros (no duplicates)')
def _uniq(c, v):
  from props.spec import z3, as_t, And, Implies
  from props.frames import frame
  from engine import pdstub
  f = v.mod('data_preparation').fill_missing_rows_with_zeros
  df = frame(c, {'item_id': 'obj', 'date': 'date', 'clicks': 'real'})
  K = pdstub.key_eq
  item, date = df.cols['item_id'], df.cols['date']
  a, b = z3.Ints('qa qb')
  A, Bq = (0, (a,)), (0, (b,))
  c.axiom(z3.ForAll([a, b], z3.Implies(And(df.dom.mem(A), df.dom.mem(Bq), K(item(A), item(Bq)), K(date(A), date(Bq))), a == b),
                    patterns=[z3.MultiPattern(as_t(item(A)), as_t(item(Bq)))]))
  out = f(df)
  nb = len(out.dom.branches)
  for x in range(nb):
    for y in range(x, nb):
      with c.scope():
        p, q = out.dom.skolem(f'p{x}{y}', x), out.dom.skolem(f'q{x}{y}', y)
        eq = And(K(out.cols['item_id'](p), out.cols['item_id'](q)), K(out.cols['date'](p), out.cols['date'](q)))
        if x == y:
          c.prove(Implies(eq, And(*[s == t for s, t in zip(p[1], q[1])])), 'no item-date appears twice')
        else:
          c.prove(z3.Not(eq), 'a filled row is not also an original row')


@contract(CONTRACTS, 'fill_missing_rows_with_zeros (missing columns)')
def _missing(c, v):
  from props.spec import z3
  from props.frames import frame
  f = v.mod('data_preparation').fill_missing_rows_with_zeros
  o = c.call(f, frame(c, [{'item_id': 'obj', 'x': 'real'}, {'date': 'date', 'x': 'real'}, {'x': 'real'}][c.decide(3)]))
  c.prove(z3.BoolVal(o.raised(ValueError)), 'ValueError')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    yield dict(items=rng.choice([1, 2, 3, 7, 20]), dates=rng.choice([1, 2, 5, 14]), p=rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]), names=rng.choice([['item_id', 'date'], ['sku', 'day']]), ids=rng.choice(['str', 'int', 'date']),
               date_kind=rng.choice(['ts', 'str']), nan=rng.random() < 0.3, neg=rng.random() < 0.3, extra=rng.choice([0, 1, 3]), order=rng.random() < 0.7, idx=rng.random() < 0.5, bad=rng.random() < 0.05, seed=rng.randrange(10**6))


def check(case):
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  r = np.random.default_rng(case['seed'])
  it, da = case['names']
  ids = [{'str': f'i{k}', 'int': k * 3 - 4, 'date': f'2024-01-{k + 1:02d}'}[case['ids']] for k in range(case['items'])]
  days = list(pd.date_range('2024-02-26', periods=case['dates'], freq='D'))
  if case['date_kind'] == 'str':
    days = [d.strftime('%Y-%m-%d') for d in days]
  rows = [(i, d) for i in ids for d in days if r.random() >= case['p']]
  if not rows:
    rows = [(ids[0], days[0])]
  df = pd.DataFrame(rows, columns=[it, da])
  df['clicks'] = r.integers(-5 if case['neg'] else 0, 9, len(df))
  df['cost'] = r.normal(size=len(df))
  for k in range(case['extra']):
    df[f'm{k}'] = r.integers(0, 2, len(df)) > 0 if k == 2 else r.random(len(df)).astype('float32' if k else 'float64')
  if case['nan']:
    df.loc[r.random(len(df)) < 0.3, 'cost'] = np.nan
  if case['order']:
    df = df.sample(frac=1.0, random_state=1)
  if case['idx']:
    df.index = r.permutation(len(df)) * 2
  df0 = df.copy()
  kw = {} if case['names'][0] == 'item_id' else dict(item_id_column=it, date_column=da)
  if case['bad']:
    try:
      dp.fill_missing_rows_with_zeros(df.drop(columns=[it if case['seed'] % 2 else da]), **kw)
    except ValueError:
      return None
    return 'missing key column accepted'
  out = dp.fill_missing_rows_with_zeros(df, **kw)
  if not df.equals(df0):
    return 'input modified'
  if set(out.columns) != set(df.columns) or any(out[k].dtype != df[k].dtype for k in df.columns):
    return 'columns or types changed'
  want = {(i, d): {} for i in df0[it].unique() for d in df0[da].unique()}
  ms = [k for k in df.columns if k not in (it, da)]
  src = {(a[it], a[da]): a for a in df0.to_dict('records')}
  got = {}
  for a in out.to_dict('records'):
    k = (a[it], a[da])
    if k in got:
      return f'{k} appears twice'
    got[k] = a
  keys = {(i, d) for i in set(df0[it]) for d in set(df0[da])}
  if set(got) != keys:
    return f'{len(set(got) - keys)} unexpected and {len(keys - set(got))} missing item-dates'
  for k, a in got.items():
    for m in ms:
      w = src[k][m] if k in src else 0
      w = 0 if w != w else w
      if a[m] != w:
        return f'{m} of {k} is {a[m]}, expected {w}'
  return None
