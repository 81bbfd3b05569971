"""Bringing the given table to the standard column names and types."""
from props.common import *

ID = 'C13'
TITLE = 'Standardising renames and converts exactly the requested columns'
STATEMENT = (
    'Standardising a table gives exactly the requested columns under their standard (or custom) names, in the original rows and row order: item ids as text, dates as dates, standard metrics as floating-point numbers, custom columns through their given conversion or unchanged, every value being the conversion of the value of its own input column. '
    'Columns that were not asked for are dropped and the given table is not modified. '
    'A missing input column, a custom column named like a standard one, and a conversion for a standard or unknown column are rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every table, every choice of column names including permuted standard names, every subset of metrics, every custom column and conversion')
WHY = 'Tests use one table with one naming; the guarantee covers every naming (including names that swap), subset and value.'
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[dict(name='standardize_column_names_and_types', where='feedx/data_preparation.py')])
LEVEL_NOTE = ('All 32 subsets of the standard metrics, tables of unbounded length and arbitrary content; up to two custom columns with arbitrary (uninterpreted) conversions; text, number and date inputs. '
              'Column names are concrete representatives (distinct names, permuted standard names).')
TRUSTED = ['pandas astype/to_numeric/to_datetime as uninterpreted conversions (engine/pdstub.py)']
ASSUMPTIONS = ['the input columns of different outputs are different', 'text that is to become a number or a date can be parsed']
CONTRACTS = []
STD = ['clicks', 'impressions', 'total_cost', 'conversions', 'total_conversion_value']
KINDS = dict(clicks='int', impressions='obj', total_cost='real', conversions='obj', total_conversion_value='real')


def _expect(c, df, raw, v, kind):
  from props.spec import z3, as_t, Rt, SV, I
  from engine import core, npstub
  x = df.cols[raw](v)
  if kind == 'item':
    return npstub.to_str(x)
  if kind == 'date':
    return x if x.kind == 'date' else SV(core.DATEOF(x.t), 'date', x.null)
  if kind == 'num':
    return SV(npstub.PARSE(x.t), None, x.null) if x.kind == 'obj' else SV(Rt(x), None, x.null)
  return x


def _std(naming, dates, items):
  def fn(c, v):
    from props.spec import z3, as_t
    from props.frames import frame, snap, unchanged, same
    f = v.mod('data_preparation').standardize_column_names_and_types
    raw = {'item_id': 'sku', 'date': 'day', **{m: 'raw ' + m for m in STD}}
    if naming == 'swapped':
      raw = {'item_id': 'date', 'date': 'item_id', 'clicks': 'impressions', 'impressions': 'clicks', 'total_cost': 'total_cost', 'conversions': 'total_conversion_value', 'total_conversion_value': 'conversions'}
    asked = [m for m in STD if c.decide(2)]
    cols = {'left': 'real', raw['date']: dates}
    for m in reversed(STD):
      cols[raw[m]] = KINDS[m]
    cols[raw['item_id']] = items
    cols['extra'] = 'obj'
    df = frame(c, cols, nulls=tuple(raw[m] for m in STD) + (raw['date'],))
    s = snap(df)
    out = f(df, item_id_column=raw['item_id'], date_column=raw['date'], **{m + '_column': raw[m] for m in asked})
    unchanged(c, df, s, 'input')
    want = ['item_id', 'date'] + asked
    c.prove(z3.BoolVal(sorted(out.cols) == sorted(want)), 'exactly the requested columns')
    c.prove(z3.BoolVal(out.dom.same_rows(df.dom)), 'the same rows in the same order')
    i = df.dom.skolem('i')
    for k in want:
      same(c, out.cols[k](i), _expect(c, df, raw[k], i, {'item_id': 'item', 'date': 'date'}.get(k, 'num')), f'{k} is the conversion of its column')
      c.prove(z3.BoolVal(out[k].dtype.name == {'item_id': 'obj', 'date': 'date'}.get(k, 'float')), f'{k}: type')
  return fn


for _n, _d, _i in (('plain', 'obj', 'int'), ('swapped', 'date', 'obj')):
  CONTRACTS.append(Contract(f'standardize_column_names_and_types ({_n} names)', _std(_n, _d, _i)))


@contract(CONTRACTS, 'standardize_column_names_and_types (custom columns)')
def _custom(c, v):
  from props.spec import z3, SV, I
  from props.frames import frame, snap, unchanged, same
  from engine import pdstub
  f = v.mod('data_preparation').standardize_column_names_and_types
  df = frame(c, {'margin_raw': 'obj', 'brand': 'obj', 'day': 'date', 'sku': 'obj', 'c': 'int', 'returns': 'real'}, nulls=('brand',))
  s = snap(df)
  CONV = z3.Function('convert', I, z3.RealSort())
  conv = lambda col: col.apply(lambda x: SV(CONV(x.t)))
  which = c.decide(4)
  custom = {'margin': 'margin_raw', 'returns': 'returns'} if which < 3 else {'brand': 'brand'}
  fns = [None, {}, {'margin': conv}, None][which]
  out = f(df, item_id_column='sku', date_column='day', clicks_column='c', custom_columns=custom, **({} if fns is None else dict(custom_parse_functions=fns)))
  unchanged(c, df, s, 'input')
  want = ['item_id', 'date', 'clicks'] + list(custom)
  c.prove(z3.BoolVal(sorted(out.cols) == sorted(want)), 'exactly the requested columns')
  c.prove(z3.BoolVal(out.dom.same_rows(df.dom)), 'the same rows in the same order')
  i = df.dom.skolem('i')
  for k, r in {'item_id': 'sku', 'date': 'day', 'clicks': 'c', **custom}.items():
    e = _expect(c, df, r, i, {'item_id': 'item', 'date': 'date', 'clicks': 'num'}.get(k, ''))
    if fns and k in fns:
      e = SV(CONV(df.cols[r](i).t))
    same(c, out.cols[k](i), e, f'{k} is the conversion of its column')


@contract(CONTRACTS, 'standardize_column_names_and_types (rejections)')
def _bad(c, v):
  from props.spec import z3
  from props.frames import frame, snap, unchanged
  f = v.mod('data_preparation').standardize_column_names_and_types
  cols = {'sku': 'obj', 'day': 'date', **{m + '_raw': 'real' for m in STD}, 'm_raw': 'real', 'k_raw': 'real'}
  kw = dict(item_id_column='sku', date_column='day', custom_columns={'m': 'm_raw', 'k': 'k_raw'}, **{m + '_column': m + '_raw' for m in STD})
  std = ['item_id', 'date'] + STD
  case = c.decide(4)
  ident = lambda x: x
  if case == 0:      # any one requested column is not in the table
    names = list(cols)
    cols.pop(names[c.decide(len(names))])
  elif case == 1:    # custom column named like a standard one (asked for or not)
    n = std[c.decide(len(std))]
    kw['custom_columns'] = {'m': 'm_raw', n: 'k_raw'}
    if n in STD and c.decide(2):
      kw.pop(n + '_column')
  elif case == 2:
    kw['custom_parse_functions'] = {'m': ident, std[c.decide(len(std))]: ident}
  else:
    kw['custom_parse_functions'] = {'m': ident, 'unknown': ident}
    if c.decide(2):
      kw['custom_columns'] = None
  df = frame(c, cols)
  s = snap(df)
  o = c.call(f, df, **kw)
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  unchanged(c, df, s, 'input')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    ask = [m for m in STD if rng.random() < 0.5]
    yield dict(ask=ask, n=rng.choice([1, 2, 5, 50]), naming=rng.choice(['plain', 'swap', 'same', 'chain']), text=rng.random() < 0.5, ids=rng.choice(['int', 'str', 'float', 'lead', 'mixed']), dates=rng.choice(['str', 'ts', 'slash', 'date', 'compact']), nan=rng.random() < 0.3,
               custom=rng.choice([0, 0, 1, 2, 3]), idx=rng.random() < 0.5, bad=rng.choice([None, None, None, 'missing', 'collide', 'fnstd', 'fnunk', 'fnnocol']), seed=rng.randrange(10**6), big=rng.random() < 0.2)


def check(case):
  import datetime
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  r = np.random.default_rng(case['seed'])
  n = case['n']
  std = ['item_id', 'date'] + case['ask']
  if case['naming'] == 'plain':
    raw = {k: 'raw ' + k for k in std}
  elif case['naming'] == 'same':
    raw = {k: k for k in std}
  elif case['naming'] == 'swap':
    p = list(r.permutation(std))
    raw = dict(zip(std, p))
  else:
    raw = dict(zip(std, std[1:] + ['first']))
  ids = dict(int=[int(x) for x in r.integers(0, 10**6, n)], str=[f'a{x}' for x in range(n)], float=[float(x) / 2 for x in range(n)], lead=[f'{x:05d}' for x in range(n)], mixed=[(x if x % 2 else f'x{x}') for x in range(n)])[case['ids']]
  days = [datetime.date(2023, 12, 25) + datetime.timedelta(days=int(x)) for x in r.integers(0, 400, n)]
  dates = dict(str=[d.isoformat() for d in days], ts=[pd.Timestamp(d) for d in days], slash=[d.strftime('%Y/%m/%d') for d in days], date=days, compact=[d.strftime('%Y%m%d') for d in days])[case['dates']]
  vals = {}
  cols = {}
  for m in case['ask']:
    x = [float(v) for v in (r.integers(0, 9, n) if r.random() < 0.5 else r.normal(size=n) * (1e17 if case['big'] else 1))]
    if case['nan']:
      x[0] = float('nan')
    vals[m] = x
    cols[raw[m]] = [None if v != v else repr(v) for v in x] if case['text'] else [int(v) for v in x] if all(v == v and v == int(v) and abs(v) < 2**53 for v in x) else x
  cols[raw['date']] = dates
  cols[raw['item_id']] = ids
  cols['zzz'] = list(range(n))
  cust = {f'my{k}': f'my raw {k}' for k in range(case['custom'])}
  if case['custom'] == 3:
    cust['my2'] = 'my2'
  for k, (a, b) in enumerate(cust.items()):
    cols[b] = [f'{x}' for x in r.integers(0, 100, n)]
  fns = {}
  if case['custom']:
    fns = {'my0': lambda s: s.astype(float) * 2}
  names = list(cols)
  r.shuffle(names)
  df = pd.DataFrame({k: cols[k] for k in names})
  if case['idx']:
    df.index = r.permutation(n) + 7
  kw = dict(item_id_column=raw['item_id'], date_column=raw['date'], **{m + '_column': raw[m] for m in case['ask']})
  if cust:
    kw.update(custom_columns=cust, custom_parse_functions=fns)
  bad = case['bad']
  if bad == 'missing':
    used = [raw[k] for k in std] + list(cust.values())
    df = df.drop(columns=[used[int(r.integers(0, len(used)))]])
  elif bad == 'collide':
    kw['custom_columns'] = {**cust, str(r.choice(['item_id', 'date'] + STD)): 'zzz'}
  elif bad == 'fnstd':
    kw['custom_parse_functions'] = {**fns, str(r.choice(['item_id', 'date'] + STD)): lambda s: s}
  elif bad == 'fnunk':
    kw['custom_columns'] = cust or None
    kw['custom_parse_functions'] = {**fns, 'other': lambda s: s}
  elif bad == 'fnnocol':
    kw.pop('custom_columns', None)
    kw['custom_parse_functions'] = {'my0': lambda s: s}
  df0 = df.copy()
  try:
    out = dp.standardize_column_names_and_types(df, **kw)
  except ValueError:
    if not df.equals(df0):
      return 'input modified'
    return None if bad else 'valid request rejected'
  if bad:
    return f'accepted although {bad}'
  if not df.equals(df0) or list(df.columns) != list(df0.columns):
    return 'input modified'
  if set(out.columns) != set(std) | set(cust) or len(out.columns) != len(std) + len(cust):
    return f'columns {list(out.columns)}'
  if list(out.index) != list(df0.index):
    return 'rows changed'
  if list(out['item_id']) != [str(x) for x in df0[raw['item_id']]]:
    return 'item ids'
  if not pd.api.types.is_datetime64_any_dtype(out['date']) or [d.date() for d in out['date']] != days:
    return 'dates'
  for m in case['ask']:
    if out[m].dtype != np.float64:
      return f'{m} has type {out[m].dtype}'
    if not np.allclose(out[m].values, np.array(vals[m]), rtol=1e-12, atol=0, equal_nan=True):
      return f'{m}: values differ'
  for a, b in cust.items():
    w = df0[b].astype(float) * 2 if a in fns else df0[b]
    if list(out[a]) != list(w):
      return f'custom column {a}'
  return None
