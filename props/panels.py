"""Generated tables for the runtime contracts of the validation gates, with an independent judgement of each condition."""
import math


def make(case, salt=None):
  """an (almost) valid panel with the violations listed in case['bad']."""
  import numpy as np
  import pandas as pd
  r = np.random.default_rng(case['seed'])
  days = list(pd.date_range('2024-01-01', periods=case['dates'], freq=f"{case['gap']}D"))
  ids = [f'i{k}' for k in range(case['items'])] if case['text'] else [int(x) for x in range(100, 100 + case['items'])]
  rows = [dict(item_id=i, date=d, week_id=(d - days[0]).days // 7, clicks=float(r.integers(0, 9)), impressions=int(r.integers(0, 99)), cost=float(r.gamma(2.0))) for d in days for i in ids]
  for bad in case['bad']:
    k = int(r.integers(0, len(rows)))
    col = ['clicks', 'cost'][int(r.integers(0, 2))]
    if bad == 'null':
      rows[k][col] = float('nan')
    elif bad == 'inf':
      rows[k][col] = float(r.choice([math.inf, -math.inf]))
    elif bad == 'neg':
      rows[k][col] = -float(r.choice([1e-9, 1.0, 1e300]))
    elif bad == 'drop':
      rows = [x for j, x in enumerate(rows) if j != k] or rows
    elif bad == 'dup':
      rows.append(dict(rows[k]))
    elif bad == 'swap':                 # one item of a date replaced by another one
      rows[k]['item_id'] = rows[int(r.integers(0, len(rows)))]['item_id']
    elif bad == 'new':
      rows[k]['item_id'] = 'other' if case['text'] else 7
    elif bad == 'date':                 # a whole date is missing or moved
      d = rows[k]['date']
      if r.random() < 0.5:
        rows = [x for x in rows if x['date'] != d] or rows
      else:
        for x in rows:
          if x['date'] == d:
            x['date'] = d + pd.Timedelta(days=int(r.choice([1, 2, 7, 100])))
    elif bad == 'onedate':              # an item-date moved to another date
      rows[k]['date'] = rows[k]['date'] + pd.Timedelta(days=1)
    elif bad == 'week':                 # the week numbers from some date on are shifted
      d, s = rows[k]['date'], int(r.choice([-2, -1, 1, 2]))
      for x in rows:
        if x['date'] >= d:
          x['week_id'] += s
    elif bad == 'weekscale':
      for x in rows:
        x['week_id'] *= int(r.choice([0, 2, -1]))
  if case['shuffle']:
    rows = [rows[int(i)] for i in r.permutation(len(rows))]
  df = pd.DataFrame(rows, columns=['item_id', 'date', 'week_id', 'clicks', 'impressions', 'cost'])
  df['week_id'] = df['week_id'].astype(int)
  if case['shuffle']:
    df.index = r.permutation(len(df)) + 5
  return df


def conditions(df, metrics, positive):
  """each condition, judged row by row in plain python."""
  rec = df.to_dict('records')
  null = lambda x: x is None or (isinstance(x, float) and x != x) or str(x) == 'NaT'
  out = dict(no_nulls=not any(null(v) for x in rec for v in x.values()))
  dates = sorted({x['date'] for x in rec})
  items = {x['item_id'] for x in rec}
  seen = {}
  for x in rec:
    seen.setdefault(x['date'], []).append(x['item_id'])
  out['no_duplicate_items_per_date'] = all(len(v) == len(items) and set(v) == items for v in seen.values())
  gaps = {(b - a).days for a, b in zip(dates, dates[1:])}
  out['dates_are_daily_or_weekly'] = gaps <= {1} or gaps <= {7}
  week = {}
  for x in rec:
    week.setdefault(x['date'], set()).add(x['week_id'])
  seq = [w for d in dates for w in sorted(week[d])]
  out['week_ids_are_consecutive_integers'] = all(b - a in (0, 1) for a, b in zip(seq, seq[1:])) if len(seq) == len(dates) else None    # undefined when a date has several week numbers
  out['all_metrics_are_finite'] = all(not null(x[m]) and math.isfinite(x[m]) for x in rec for m in metrics)
  out['all_metrics_are_non_negative'] = all(not x[m] < 0 for x in rec for m in positive)
  return out


BAD = ['null', 'inf', 'neg', 'drop', 'dup', 'swap', 'new', 'date', 'onedate', 'week', 'weekscale']


def draw(rng, extra=()):
  n = rng.choice([0, 0, 1, 1, 1, 2, 3])
  return dict(dates=rng.choice([1, 2, 3, 7, 8, 15]), items=rng.choice([1, 2, 3, 7]), gap=rng.choice([1, 7, 7, 1, 2]) if rng.random() < 0.3 else rng.choice([1, 7]), text=rng.random() < 0.5, shuffle=rng.random() < 0.7, bad=[rng.choice(BAD + list(extra)) for _ in range(n)], seed=rng.randrange(10**6))


def skips(rng, checks):
  return rng.choice([None, [], [rng.choice(checks)], [c for c in checks if rng.random() < 0.5], [c for c in checks if rng.random() < 0.85], ['nonsense'], [rng.choice(checks), 'no_null']])
