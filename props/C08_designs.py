"""Only valid designs exist; their stored form and identity are faithful."""
from props.common import *

ID = 'C08'
TITLE = 'Only consistent designs exist, with the item counts trimming will leave'
STATEMENT = (
    'A design is accepted exactly when its durations, percentiles and washout are consistent (positive runtime, non-negative pretest, percentiles in range, no pre-trimming without pretest data, a crossover has an '
    'even runtime longer than twice its washout) and more than fifty items survive all trimming; everything else is rejected. '
    'The item counts it reports are the given number minus the rounded-down trimmed fraction on each side, first before and then after the experiment, so post-trimming removes equally many items on both sides, '
    'and the printed washout weeks of a crossover are the first washout weeks of each half.')
QUANT = dict(over=['inputs', 'configurations'], text='every combination of design parameters')
WHY = 'Validation is a conjunction over a dozen parameters with boundary cases; tests sample a few values of each.'
ANCHORS = dict(files=['feedx/experiment_design.py'], mechanism=[
    dict(name='ExperimentDesign.__post_init__', where='feedx/experiment_design.py'),
    dict(name='ExperimentDesign._validate_design', where='feedx/experiment_design.py'),
    dict(name='ExperimentDesign.__str__', where='feedx/experiment_design.py')])
LEVEL_NOTE = 'All parameter values (percentages as real numbers); all paths of the constructor. The printed text of a crossover is checked for its washout list by enumeration up to 60 weeks (bounded).'
BOUNDED = ['washout weeks printed: runtime up to 60 weeks (runtime check only)']
ASSUMPTIONS = []
CONTRACTS = []
FIELDS = ['n_items_before_trimming', 'runtime_weeks', 'primary_metric', 'pretest_weeks', 'is_crossover', 'pre_trim_top_percentile',
          'pre_trim_bottom_percentile', 'post_trim_percentile', 'crossover_washout_weeks', 'alpha', 'power', 'coinflip_salt']


def sym_fields(c, tag='', crossover=None, washout=True):
  k = dict(n_items_before_trimming=c.int('n_items' + tag), runtime_weeks=c.int('runtime' + tag), primary_metric='sales', pretest_weeks=c.int('pretest' + tag),
           is_crossover=crossover, pre_trim_top_percentile=c.real('top' + tag), pre_trim_bottom_percentile=c.real('bottom' + tag),
           post_trim_percentile=c.real('post' + tag), crossover_washout_weeks=c.int('washout' + tag) if washout else None,
           alpha=c.real('alpha' + tag), power=c.real('power' + tag), coinflip_salt=None)
  return k


def counts(k):
  from props.spec import ToReal, Rt, as_t
  from engine.core import to_int as ToInt
  n = as_t(k['n_items_before_trimming'])
  pre = n - ToInt(Rt(k['pre_trim_top_percentile']) * ToReal(n)) - ToInt(Rt(k['pre_trim_bottom_percentile']) * ToReal(n))
  post = pre - 2 * ToInt(Rt(k['post_trim_percentile']) * ToReal(pre))
  return pre, post


def valid(k):
  from props.spec import And, Or, Not, Implies, Rt, as_t, z3
  rt, pt = as_t(k['runtime_weeks']), as_t(k['pretest_weeks'])
  a, b, q = Rt(k['pre_trim_top_percentile']), Rt(k['pre_trim_bottom_percentile']), Rt(k['post_trim_percentile'])
  pre, post = counts(k)
  cs = [rt >= 1, pt >= 0, a >= 0, b >= 0, q >= 0, a + b < 1, q < 0.5, Or(pt > 0, And(a == 0, b == 0)), post > 50]
  if k['is_crossover']:
    w = k['crossover_washout_weeks']
    if w is None:
      return z3.BoolVal(False)
    cs += [as_t(w) >= 0, rt > 2 * as_t(w), rt % 2 == 0]
  return And(*cs)


def _construct(cross, wash):
  def fn(c, v):
    from props.spec import z3, as_t, And, Not
    D = v.mod('experiment_design').ExperimentDesign
    k = sym_fields(c, crossover=cross, washout=wash)
    ok = valid(k)
    o = c.call(D, **k)
    c.prove(z3.BoolVal(o.ok or o.raised(ValueError)), 'rejection is a ValueError')
    if not o.ok:
      c.prove(Not(ok), 'only inconsistent designs are rejected')
      return
    c.prove(ok, 'accepted designs are consistent')
    pre, post = counts(k)
    c.prove(as_t(o.value.n_items_after_pre_trim) == pre, 'items after pre-trimming')
    c.prove(as_t(o.value.n_items_after_post_trim) == post, 'items after post-trimming')
    for f in FIELDS:
      g, e = getattr(o.value, f), k[f]
      c.prove(z3.BoolVal(g is e or g == e) if isinstance(e, (bool, str, type(None))) else as_t(g) == as_t(e), f'{f} kept as given')
  return fn


for _x in (False, True):
  for _w in (True, False):
    CONTRACTS.append(Contract(f'ExperimentDesign ({"crossover" if _x else "regular"}{"" if _w else ", no washout given"})', _construct(_x, _w)))


# -- runtime contract ----------------------------------------------------------
def design_case(rng, valid_only=False):
  cross = rng.random() < 0.5
  n = rng.choice([51, 52, 53, 60, 99, 100, 101, 120, 333, 1000])
  k = dict(n_items_before_trimming=n, runtime_weeks=rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 26] if valid_only else [-1, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 26]),
           primary_metric=rng.choice(['clicks', 'gmv']), pretest_weeks=rng.choice([0, 1, 4, 8] if valid_only else [-1, 0, 0, 1, 4, 8]), is_crossover=cross,
           pre_trim_top_percentile=rng.choice([0.0, 0.0, 0.01, 0.1, 0.25] + ([] if valid_only else [-0.01, 0.5, 0.75])),
           pre_trim_bottom_percentile=rng.choice([0.0, 0.0, 0.01, 0.125, 0.25] + ([] if valid_only else [-0.01, 0.5])),
           post_trim_percentile=rng.choice([0.0, 0.0, 0.01, 0.02, 0.125, 0.25] + ([] if valid_only else [-0.01, 0.49, 0.5])),
           crossover_washout_weeks=rng.choice([0, 1, 2, 4, 5] + ([] if valid_only else [-1, None])) if cross else rng.choice([None, None, 0, 1]),
           alpha=rng.choice([0.05, 0.1, 0.3, 0.05 / 3, rng.random()]), power=rng.choice([0.8, 0.5, 2 / 3, rng.random()]))
  for f in ('pre_trim_top_percentile', 'pre_trim_bottom_percentile', 'post_trim_percentile'):
    if rng.random() < 0.2 and k['pretest_weeks'] > 0:
      k[f] = rng.random() * 0.3
  return k


def expected(k):
  """(valid, pre, post) from exact rational arithmetic."""
  from fractions import Fraction as F
  import math
  n = k['n_items_before_trimming']
  fl = lambda p, m: math.floor(p * m)
  pre = n - fl(k['pre_trim_top_percentile'], n) - fl(k['pre_trim_bottom_percentile'], n)
  post = pre - 2 * fl(k['post_trim_percentile'], pre)
  a, b, q = k['pre_trim_top_percentile'], k['pre_trim_bottom_percentile'], k['post_trim_percentile']
  ok = k['runtime_weeks'] > 0 and k['pretest_weeks'] >= 0 and a >= 0 and b >= 0 and 0 <= q < 0.5 and a + b < 1
  ok = ok and (k['pretest_weeks'] > 0 or (a == 0 and b == 0)) and post > 50
  if k['is_crossover']:
    w = k['crossover_washout_weeks']
    ok = ok and w is not None and w >= 0 and k['runtime_weeks'] > 2 * w and k['runtime_weeks'] % 2 == 0
  return ok, pre, post


def cases(rng):
  while True:
    yield design_case(rng, rng.random() < 0.5)


def check(case):
  import re
  from feedx import experiment_design as ed
  ok, pre, post = expected(case)
  try:
    d = ed.ExperimentDesign(**case)
  except ValueError:
    return 'consistent design rejected' if ok else None
  if not ok:
    return f'inconsistent design accepted: {case}'
  if (d.n_items_after_pre_trim, d.n_items_after_post_trim) != (pre, post):
    return f'item counts {(d.n_items_after_pre_trim, d.n_items_after_post_trim)}, expected {(pre, post)}'
  for f, x in case.items():
    if getattr(d, f) != x:
      return f'{f} is {getattr(d, f)}, given {x}'
  txt = str(d)
  for x in (pre, post, case['n_items_before_trimming'], case['runtime_weeks']):
    if not re.search(rf'\b{x}\b', txt):
      return f'{x} does not appear in the printed design'
  if d.is_crossover:
    h, w = d.runtime_weeks // 2, d.crossover_washout_weeks
    want = [i for i in range(1, d.runtime_weeks + 1) if (i - 1) % h < w]
    m = re.search(r'Weeks \[(.*?)\]', txt)
    got = [int(x) for x in m.group(1).split(',') if x.strip()] if m else None
    if got != want:
      return f'printed washout weeks {got}, the analysis excludes {want}'
  return None
