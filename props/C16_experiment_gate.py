"""Accepting or rejecting experiment data."""
from props.common import *
from props.gate import Gate, sound, complete, compose, unknown_skips, restore

ID = 'C16'
TITLE = 'Experiment data is accepted exactly if it is clean and matches its design'
STATEMENT = (
    'Experiment data passes validation exactly if it is complete, has no missing values, evenly spaced dates, consecutive weeks and finite metrics that are not negative unless allowed to be, includes the primary metric, has as many items as designed, covers the pretest and (once concluded) the runtime, gives every item the one treatment assignment that the salt of the design gives it, and its split is not significantly uneven (0.001); otherwise it is rejected. '
    'Asking to skip a check turns only that check into a warning; asking to skip an unknown check is rejected. '
    'Validation never changes the data.')
QUANT = dict(over=['inputs', 'configurations'], text='every table, design and set of skipped checks')
WHY = 'Tests try one violation per check; the guarantee covers every table, design, start date and set of skipped checks.'
CHECKS = ['no_nulls', 'no_duplicate_items_per_date', 'dates_are_daily_or_weekly', 'week_ids_are_consecutive_integers', 'all_metrics_are_finite', 'all_metrics_are_non_negative',
          'number_of_items_matches_design', 'experiment_dates_match_design', 'treatment_assignment_is_unique', 'coinflip_salt_validation', 'no_sample_ratio_mismatch', 'primary_metric_in_metrics']
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[
    dict(name='validate_experiment_data', where='feedx/data_preparation.py'),
    dict(name='validate_no_sample_ratio_mismatch', where='feedx/data_preparation.py'),
    dict(name='_validate_coinflip_matches_assignments', where='feedx/data_preparation.py')])
LEVEL_NOTE = ('Tables of unbounded length, every design. Soundness and completeness are proved per check, for no skipped check, each single one and all others; the sample ratio check up to the p-value of scipy.stats.binomtest. '
              'Infinite values of a metric are covered by the runtime contract only.')
TRUSTED = ['pandas groupby/count/nunique/shift/sort contracts (engine/pdstub.py)', 'three facts about finite sets (props/frames.py, props/gate.py)', 'scipy.stats.binomtest', 'hashlib.md5 as a function']
ASSUMPTIONS = ['items, dates, week numbers and assignments are not missing when the check for missing values is skipped', 'all rows of a date have the same week number', 'metric values are finite or missing (infinities: runtime contract)']
CONTRACTS = []
EXP = Gate('validate_experiment_data', CHECKS, experiment=True)

for _k in CHECKS:
  CONTRACTS.append(Contract(f'validate_experiment_data accepts => {_k}', sound(EXP, _k), subst=restore))
for _k in CHECKS:
  if _k not in ('no_sample_ratio_mismatch', 'primary_metric_in_metrics'):
    CONTRACTS.append(Contract(f'validate_experiment_data: {_k} does not reject good data', complete(EXP, _k), subst=restore))
CONTRACTS.append(Contract('validate_experiment_data (composition)', compose(EXP), subst=restore))
CONTRACTS.append(Contract('validate_experiment_data (unknown checks)', unknown_skips(EXP), subst=restore))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  from props import panels
  while True:
    case = panels.draw(rng)
    case.update(skip=panels.skips(rng, CHECKS), n_items=rng.choice([0, 0, 0, 0, 1, -1]), pre=rng.choice([0, 0, 0, 1]), run=rng.choice([0, 0, 0, 1]), concluded=rng.choice([None, True, False]), neg=rng.choice([None, None, [], ['clicks'], ['net_clicks', 'cos', 'total_cost'], ['cost', 'zzz'], ['clicks', 'cost', 'impressions']]),
                metrics=rng.choice([['clicks', 'cost', 'impressions'], ['clicks'], ['cost', 'clicks'], ['cost', 'impressions']]), arm=rng.choice([None] * 6 + ['flip', 'flipall', 'mixed', 'onegroup']), many=rng.random() < 0.15)
    if case['many']:
      case.update(items=rng.choice([12, 20, 40, 200]), dates=2)
    yield case


def check(case):
  import datetime
  import numpy as np
  from props import panels
  from feedx import data_preparation as dp
  from feedx import experiment_design as ed
  df = panels.make(case)
  r = np.random.default_rng(case['seed'] + 1)
  salt = f"s{case['seed'] % 7}"
  try:
    want = [int(ed.Coinflip(salt)(i)) for i in df['item_id']]      # the assignment itself is decided in C10
  except Exception as e:
    return f'coinflip failed: {e}'
  arm = list(want)
  if case['arm'] == 'flip':
    arm[int(r.integers(0, len(arm)))] ^= 1
  elif case['arm'] == 'flipall':
    i = df['item_id'].iloc[0]
    arm = [a ^ 1 if x == i else a for a, x in zip(arm, df['item_id'])]
  elif case['arm'] == 'mixed':
    arm = [int(x) for x in r.integers(0, 2, len(arm))]
  elif case['arm'] == 'onegroup':
    arm = [1] * len(arm)
  df['arm'] = arm
  n_items = len(set(df['item_id'])) + case['n_items']
  weeks = max(1, (case['dates'] * case['gap']) // 7)
  pre = int(r.integers(0, weeks + 1))
  first = datetime.date(2024, 1, 1)
  start = first + datetime.timedelta(days=7 * pre)
  import types
  design = types.SimpleNamespace(n_items_after_pre_trim=n_items, pretest_weeks=pre + case['pre'], runtime_weeks=max(1, weeks - pre + case['run']), primary_metric='clicks', coinflip_salt=salt)
  before = df.copy()
  skip = case['skip']
  kw = dict(experiment_has_concluded=case['concluded']) if case['concluded'] is not None else {}
  if case['neg'] is not None:
    kw['can_be_negative_metric_columns'] = case['neg']
  try:
    dp.validate_experiment_data(df, design=design, item_id_column='item_id', date_column='date', week_id_column='week_id', treatment_assignment_column='arm', metric_columns=case['metrics'], experiment_start_date=start.isoformat(), skip_validation_checks=skip, **kw)
    got = None
  except ValueError as e:
    got = str(e)
  except Exception as e:
    return f'unexpected {type(e).__name__}: {e}'
  if not df.equals(before) or list(df.dtypes) != list(before.dtypes):
    return 'the data changed'
  skip = skip or []
  if any(s not in dp.ValidationChecks._CHECKS for s in skip):
    return None if got is not None else f'unknown check accepted: {skip}'
  cond = panels.conditions(df, case['metrics'], [m for m in case['metrics'] if m not in (case['neg'] or [])])
  rec = list(zip(df['item_id'], df['date'], arm))
  cond['number_of_items_matches_design'] = len({i for i, _, _ in rec}) == n_items
  days = [d.date() for _, d, _ in rec]
  cond['experiment_dates_match_design'] = min(days) <= start - datetime.timedelta(days=7 * design.pretest_weeks) and (case['concluded'] is False or max(days) >= start + datetime.timedelta(days=7 * (design.runtime_weeks - 1)))
  per = {}
  for i, _, a in rec:
    per.setdefault(i, set()).add(a)
  cond['treatment_assignment_is_unique'] = all(len(v) == 1 for v in per.values())
  cond['coinflip_salt_validation'] = arm == want
  n1, n0 = sum(1 in v for v in per.values()), sum(0 in v for v in per.values())
  # exact two sided binomial probability at one half: twice the smaller tail, the middle counted once
  import math
  n, k = n1 + n0, min(n1, n0)
  p = min(1.0, 2.0 * sum(math.comb(n, j) for j in range(k + 1)) / 2.0**n)
  cond['no_sample_ratio_mismatch'] = None if abs(p - 0.001) < 1e-12 else p >= 0.001
  cond['primary_metric_in_metrics'] = 'clicks' in case['metrics']
  failed = [k for k in CHECKS if cond[k] is False and k not in skip]
  if not failed and got is not None and any(cond[k] is None and k not in skip for k in CHECKS):
    return None
  if bool(failed) != (got is not None):
    return f'conditions violated: {[k for k in CHECKS if not cond[k]]}, skipped {skip}; rejected: {got!r:.200}'
  if got is not None and not any(k in got for k in failed + [k for k in CHECKS if cond[k] is None]):
    return f'rejection {got!r:.200} names none of {failed}'
