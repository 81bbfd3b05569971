"""The candidate designs and the start weeks they are simulated with."""
from props.common import *

ID = 'C24'
TITLE = 'Exactly the valid combinations are proposed, with start weeks that fit the data'
STATEMENT = (
    'Every valid combination of the candidate parameters is proposed exactly once as a regular design (if allowed) and as a crossover design (if allowed): combinations with pre-trimming but no pretest, and crossovers with an odd runtime or one not longer than twice the washout, are left out, everything else is kept, and crossovers require a washout. '
    'The earliest start week leaves room for the longest pretest and the longest runtime or the data is rejected as too short. '
    'The simulated start weeks are all weeks from that one to the last that leaves room for the runtime.')
QUANT = dict(over=['inputs', 'configurations'], text='all candidate parameters and all historical weeks')
WHY = 'Tests use one grid of candidates; a combination lost or invented, or a start week off by one, depends on the values of the candidates.'
ANCHORS = dict(files=['feedx/experiment_simulations.py'], mechanism=[
    dict(name='generate_all_valid_designs', where='feedx/experiment_simulations.py'),
    dict(name='calculate_minimum_start_week_id', where='feedx/experiment_simulations.py'),
    dict(name='valid_start_week_ids', where='feedx/experiment_simulations.py')])
LEVEL_NOTE = ('One arbitrary combination is verified for all values of its parameters (the decision for a combination does not depend on the others); that every combination is visited once is checked for grids of up to two candidates per parameter. '
              'Start weeks: candidate and week collections of any length.')
TRUSTED = ['itertools.product', 'dataclass construction of the design (contract C08)']
BOUNDED = ['generate_all_valid_designs: grids of up to two candidates per parameter for completeness of the product']
ASSUMPTIONS = ['weeks are integers']
CONTRACTS = []
PARAMS = ['runtime_weeks', 'pretest_weeks', 'pre_trim_top_percentile', 'pre_trim_bottom_percentile', 'post_trim_percentile']
CANDS = ['candidate_runtime_weeks', 'candidate_pretest_weeks', 'candidate_pre_trim_top_percentiles', 'candidate_pre_trim_bottom_percentiles', 'candidate_post_trim_percentiles']


def _restore(v):
  es = v.mod('experiment_simulations')
  return {('experiment_simulations', 'ExperimentDesign'): es.ExperimentDesign}


def _recorder(v):
  es, ed = v.mod('experiment_simulations'), v.mod('experiment_design')
  import inspect
  sig = inspect.signature(ed.ExperimentDesign)
  made = []

  def make(*a, **k):
    b = sig.bind(*a, **k)
    b.apply_defaults()
    made.append((b.arguments, object()))
    return made[-1][1]
  es.ExperimentDesign = make
  return made


@contract(CONTRACTS, 'generate_all_valid_designs (one combination)', subst=_restore)
def _one(c, v):
  from props.spec import z3, as_t, And, Not
  es = v.mod('experiment_simulations')
  made = _recorder(v)
  cross, trad, has = bool(c.decide(2)), bool(c.decide(2)), bool(c.decide(2))
  run, pre, n = c.int('runtime'), c.int('pretest'), c.int('items')
  top, bot, post = c.real('top'), c.real('bottom'), c.real('post')
  wash = c.int('washout') if has else None
  c.assume(And(pre.t >= 0, run.t >= 0, top.t >= 0, bot.t >= 0))
  k = dict(zip(CANDS, [[run], [pre], [top], [bot], [post]]))
  o = c.call(es.generate_all_valid_designs, n_items_before_trimming=n, crossover_design_allowed=cross, traditional_design_allowed=trad, primary_metric='clicks', **k, **(dict(crossover_washout_weeks=wash) if has else {}))
  if cross and not has:
    c.prove(z3.BoolVal(o.raised(ValueError)), 'a crossover needs its washout')
    return
  c.prove(z3.BoolVal(o.ok), 'no error')
  if not o.ok:
    return
  want = []
  if not c.fork(And(top.t + bot.t > 0, pre.t == 0)):
    if trad:
      want.append(False)
    if cross and c.fork(And(run.t > 2 * as_t(wash), run.t % 2 == 0)):
      want.append(True)
  got = list(o.value)
  c.prove(z3.BoolVal(len(got) == len(want) and len(made) == len(want) and all(a is b for a, (_, b) in zip(got, made))), 'the valid designs, once each')
  for x, (a, _) in zip(want, made):
    nm = 'crossover' if x else 'regular'
    c.prove(z3.BoolVal(a['is_crossover'] is x), f'{nm} design')
    for p, val in zip(PARAMS + ['n_items_before_trimming'], [run, pre, top, bot, post, n]):
      c.prove(as_t(a[p]) == as_t(val), f'{nm}: {p}')
    c.prove(z3.BoolVal(a['primary_metric'] == 'clicks'), f'{nm}: metric')
    if x:
      c.prove(z3.BoolVal(a['crossover_washout_weeks'] is not None) if a['crossover_washout_weeks'] is None else as_t(a['crossover_washout_weeks']) == as_t(wash), f'{nm}: washout')


@contract(CONTRACTS, 'generate_all_valid_designs (all combinations)', subst=_restore)
def _grid(c, v):
  import itertools
  from props.spec import z3
  es = v.mod('experiment_simulations')
  made = _recorder(v)
  cross, trad = bool(c.decide(2)), bool(c.decide(2))
  wash = c.decide(3)
  lists = [[[4, 7], [0, 3], [0.0, 0.1], [0.0, 0.2], [0.0, 0.05]], [[2], [0], [0.0, 0.1], [0.3], [0.01, 0.02]], [[6, 4], [2], [0.0], [0.0], [0.0]]][c.decide(3)]
  out = es.generate_all_valid_designs(n_items_before_trimming=1000, crossover_design_allowed=cross, traditional_design_allowed=trad, primary_metric='clicks', crossover_washout_weeks=wash, **dict(zip(CANDS, lists)))
  want = []
  for t in itertools.product(*lists):
    if t[2] + t[3] > 0 and t[1] == 0:
      continue
    want += [t + (x,) for x in (False, True) if (x and cross and t[0] > 2 * wash and t[0] % 2 == 0) or (not x and trad)]
  got = [tuple(a[p] for p in PARAMS) + (a['is_crossover'],) for a, _ in made]
  c.prove(z3.BoolVal(sorted(got) == sorted(want)), 'every valid combination, once')
  c.prove(z3.BoolVal(len(out) == len(made) and {id(x) for x in out} == {id(b) for _, b in made}), 'all of them are returned')


@contract(CONTRACTS, 'calculate_minimum_start_week_id')
def _start(c, v):
  from props.spec import z3, as_t, And, Or, Dom, SV
  f = v.mod('experiment_simulations').calculate_minimum_start_week_id
  ds = [Dom.range(c.int(n).t, n) for n in ('runs', 'pres', 'weeks')]
  for d in ds:
    c.assume(d.card() >= 1)
  runs, pres, weeks = [c.array(d.name, d, kind='int') for d in ds]
  i, j, a = ds[0].skolem('i'), ds[1].skolem('j'), ds[2].skolem('a')
  o = c.call(f, runs, pres, weeks)
  if not o.ok:
    c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
    # no start week leaves room for every candidate
    s, lo, hi = c.int('s').t, c.int('lo').t, c.int('hi').t
    c.assume(And(ds[2].forall(lambda e: And(lo <= as_t(weeks.fn(e)), as_t(weeks.fn(e)) <= hi)),
                 ds[2].exists(lambda e: as_t(weeks.fn(e)) == lo), ds[2].exists(lambda e: as_t(weeks.fn(e)) == hi)))
    c.prove(z3.Not(And(ds[0].forall(lambda e: s + as_t(runs.fn(e)) - 1 <= hi), ds[1].forall(lambda e: s - as_t(pres.fn(e)) >= lo))), 'rejected only if no start week fits')
    return
  s = as_t(o.value)
  c.prove(ds[2].exists(lambda e: as_t(weeks.fn(e)) <= s - as_t(pres.fn(j))), 'room for every pretest')
  c.prove(ds[2].exists(lambda e: as_t(weeks.fn(e)) >= s + as_t(runs.fn(i)) - 1), 'room for every runtime')
  c.prove(Or(ds[1].exists(lambda e: as_t(weeks.fn(a)) > s - 1 - as_t(pres.fn(e))), ds[2].exists(lambda e: as_t(weeks.fn(e)) < as_t(weeks.fn(a)))), 'the earliest such week')


@contract(CONTRACTS, 'SimulationAnalysis start weeks')
def _valid(c, v):
  from props.spec import z3, as_t, And
  from props.frames import frame
  from props.C19_time_periods import _design
  es = v.mod('experiment_simulations')
  df = frame(c, {'wk': 'int', 'item': 'obj', 'x': 'real'})
  c.assume(df.dom.card() >= 1)
  run, first = c.int('runtime'), c.int('first')
  d = _design(v, runtime_weeks=run)
  a = es.SimulationAnalysis(design=d, historical_data=df, item_id_column='item', week_id_column='wk', minimum_start_week_id=first, rng=object())
  r = a.valid_start_week_ids
  wk = df.cols['wk']
  i = df.dom.skolem('i')
  lo, hi = as_t(r.lo if hasattr(r, 'lo') else r.start), as_t(r.hi if hasattr(r, 'hi') else r.stop)
  c.prove(lo == first.t, 'from the first start week')
  last = hi - 1
  c.prove(df.dom.exists(lambda e: as_t(wk(e)) >= last + run.t - 1), 'the last one leaves room for the runtime')
  c.prove(as_t(wk(i)) <= last + run.t - 1, 'the week after does not')
  for f in ('minimum_detectable_effect', 'relative_minimum_detectable_effect', 'primary_metric_average', 'primary_metric_standard_deviation', 'aa_simulation_results', 'ab_simulation_results'):
    c.prove(z3.BoolVal(getattr(a, f) is None), f'{f} is not set yet')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  sub = lambda xs, k: rng.sample(xs, rng.randrange(1, k + 1))
  while True:
    yield dict(n=rng.choice([100, 1000, 5000]), cross=rng.random() < 0.6, trad=rng.random() < 0.7, run=sub([1, 2, 3, 4, 6, 7, 8, 10, 12], 4), pre=sub([0, 1, 2, 4, 9], 3), top=sub([0.0, 0.01, 0.05, 0.1], 3), bot=sub([0.0, 0.0, 0.02, 0.1], 2), post=sub([0.0, 0.01, 0.02, 0.1], 3),
               wash=rng.choice([None, 0, 1, 2, 3]), weeks=rng.choice([3, 8, 12, 20, 25]), off=rng.choice([0, 0, 5, -3]))


def check(case):
  import itertools
  import numpy as np
  import pandas as pd
  from feedx import experiment_simulations as es, experiment_design as ed
  k = dict(zip(CANDS, [case['run'], case['pre'], case['top'], case['bot'], case['post']]))
  try:
    out = es.generate_all_valid_designs(n_items_before_trimming=case['n'], crossover_design_allowed=case['cross'], traditional_design_allowed=case['trad'], primary_metric='clicks', crossover_washout_weeks=case['wash'], **k)
  except ValueError as e:
    if case['cross'] and case['wash'] is None:
      out = None
    else:
      return f'rejected: {e}'
  if out is not None:
    if case['cross'] and case['wash'] is None:
      return 'crossover without washout accepted'
    want = set()
    for t in itertools.product(*[list(dict.fromkeys(x)) for x in k.values()]):
      for x in (False, True):
        if not case['cross' if x else 'trad']:
          continue
        try:
          ed.ExperimentDesign(n_items_before_trimming=case['n'], primary_metric='clicks', is_crossover=x, crossover_washout_weeks=case['wash'] if x else None, **dict(zip(PARAMS, t)))
        except ValueError:
          continue
        want.add(t + (x,))
    got = [tuple(getattr(d, p) for p in PARAMS) + (d.is_crossover,) for d in out]
    mult = 1
    for x in k.values():
      if len(set(x)) < len(x):
        mult = 0
    if set(got) != want or (mult and len(got) != len(want)):
      return f'designs: lost {sorted(want - set(got))[:2]}, invented {sorted(set(got) - want)[:2]}, {len(got)} of {len(want)}'
    for d in out:
      if d.n_items_before_trimming != case['n'] or d.primary_metric != 'clicks' or (d.is_crossover and d.crossover_washout_weeks != case['wash']):
        return f'{d!r}: wrong constants'
  weeks = np.arange(case['off'], case['off'] + case['weeks'])
  r, p = max(case['run']), max(case['pre'])
  try:
    s = es.calculate_minimum_start_week_id(case['run'], case['pre'], np.random.default_rng(0).permutation(weeks))
  except ValueError as e:
    return None if case['weeks'] < r + p else f'rejected: {e}'
  if case['weeks'] < r + p:
    return 'too little data accepted'
  if s != case['off'] + p:
    return f'first start week {s} instead of {case["off"] + p}'
  import types
  for run in case['run']:
    d = types.SimpleNamespace(runtime_weeks=run)
    a = es.SimulationAnalysis(design=d, historical_data=pd.DataFrame({'w': weeks, 'i': 'a'}), item_id_column='i', week_id_column='w', minimum_start_week_id=s, rng=None)
    if list(a.valid_start_week_ids) != [x for x in range(s, s + 100) if x + run - 1 <= weeks[-1]]:
      return f'start weeks {list(a.valid_start_week_ids)} for runtime {run}'
