"""Accepting or rejecting historical data."""
from props.common import *
from props.gate import Gate, sound, complete, compose, unknown_skips, restore

ID = 'C15'
TITLE = 'Historical data is accepted exactly if every condition holds'
STATEMENT = (
    'Historical data passes validation exactly if no value is missing, every item has exactly one row on every date, the dates are all one or all seven days apart, the week numbers of consecutive dates never skip or fall, and the primary metric is finite and not negative; otherwise it is rejected, naming the failed check. '
    'Asking to skip a check turns only that check into a warning; asking to skip an unknown check is rejected. '
    'Validation never changes the data.')
QUANT = dict(over=['inputs', 'configurations'], text='every table, every set of skipped checks')
WHY = 'Tests try one violation per check on small tables; the guarantee covers every table (any position and combination of violations) and every set of skipped checks.'
CHECKS = ['no_nulls', 'no_duplicate_items_per_date', 'dates_are_daily_or_weekly', 'week_ids_are_consecutive_integers', 'all_metrics_are_finite', 'all_metrics_are_non_negative']
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[
    dict(name='validate_historical_data', where='feedx/data_preparation.py'),
    dict(name='ValidationChecks', where='feedx/data_preparation.py'),
    dict(name='_validate_every_item_exists_exactly_once_for_every_date', where='feedx/data_preparation.py')])
LEVEL_NOTE = ('Tables of unbounded length. Soundness (accepted => every condition that was not skipped) and completeness (all conditions => accepted) are proved separately, for no skipped check, each single one, and all. '
              'Infinite values of the metric are covered by the runtime contract only (the logic has finite reals and missing values).')
TRUSTED = ['pandas groupby/count/nunique/shift/sort contracts (engine/pdstub.py)', 'two facts about finite sets (props/frames.py): a subset of equal size is the whole set; a one-to-one map between sets of equal size is onto']
ASSUMPTIONS = ['items, dates and week numbers are not missing when the check for missing values is skipped', 'all rows of a date have the same week number', 'metric values are finite or missing (infinities: runtime contract)']
CONTRACTS = []


HIST = Gate('validate_historical_data', CHECKS)


for _k in CHECKS:
  CONTRACTS.append(Contract(f'validate_historical_data accepts => {_k}', sound(HIST, _k), subst=restore))
for _k in CHECKS:
  CONTRACTS.append(Contract(f'validate_historical_data: {_k} does not reject good data', complete(HIST, _k), subst=restore))
CONTRACTS.append(Contract('validate_historical_data (composition)', compose(HIST), subst=restore))
CONTRACTS.append(Contract('validate_historical_data (unknown checks)', unknown_skips(HIST), subst=restore))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  from props import panels
  while True:
    case = panels.draw(rng)
    case['skip'] = panels.skips(rng, CHECKS)
    case['dtype'] = rng.choice([None] * 8 + ['date', 'week'])
    yield case


def check(case):
  from props import panels
  from feedx import data_preparation as dp
  df = panels.make(case)
  if case['dtype'] == 'date':
    df['date'] = df['date'].astype(str)
  elif case['dtype'] == 'week':
    df['week_id'] = df['week_id'].astype(float)
  before = df.copy()
  skip = case['skip']
  try:
    dp.validate_historical_data(df, item_id_column='item_id', date_column='date', week_id_column='week_id', primary_metric_column='clicks', skip_validation_checks=skip)
    got = None
  except ValueError as e:
    got = str(e)
  except Exception as e:
    return f'unexpected {type(e).__name__}: {e}'
  if not df.equals(before) or list(df.dtypes) != list(before.dtypes):
    return 'the data changed'
  skip = skip or []
  if any(s not in dp.ValidationChecks._CHECKS for s in skip):
    return None if got is not None else f'unknown check accepted: {skip}'
  if case['dtype']:
    return None if got is not None else f'wrong {case["dtype"]} type accepted'
  cond = panels.conditions(df, ['clicks'], ['clicks'])
  failed = [k for k in CHECKS if cond[k] is False and k not in skip]
  if not failed and got is not None and any(cond[k] is None and k not in skip for k in CHECKS):
    return None
  if bool(failed) != (got is not None):
    return f'conditions violated: {[k for k in CHECKS if not cond[k]]}, skipped {skip}; rejected: {got!r:.200}'
  if got is not None and not any(k in got for k in failed + [k for k in CHECKS if cond[k] is None]):
    return f'rejection {got!r:.200} names none of {failed}'


