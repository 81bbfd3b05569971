"""Stored designs and design identifiers are faithful."""
from props.common import *
from props.C08_designs import sym_fields, valid, FIELDS, design_case

ID = 'C09'
TITLE = 'Designs survive storage unchanged and their identifier ignores only the salt'
STATEMENT = (
    'Writing a design to a file and loading it gives back an equal design with the same identifier, and a file whose item counts do not follow from its other values is rejected. '
    'Two designs have the same identifier exactly when all their parameters other than the coin-flip salt agree, and asking for the identifier changes nothing.')
QUANT = dict(over=['inputs', 'histories'], text='every valid design, every altered item count, every pair of designs')
WHY = 'Tests store one design and change one or two fields; the guarantee is for every design and every field.'
ANCHORS = dict(files=['feedx/experiment_design.py'], mechanism=[
    dict(name='ExperimentDesign.design_id', where='feedx/experiment_design.py'),
    dict(name='ExperimentDesign.load_from_yaml', where='feedx/experiment_design.py'),
    dict(name='ExperimentDesign.write_to_yaml', where='feedx/experiment_design.py')])
LEVEL_NOTE = 'All valid designs, over the contract that YAML returns the mapping of scalars it was given; md5 and the textual form of numbers are taken to be collision-free.'
TRUSTED = ['yaml.dump then yaml.safe_load returns an equal mapping of strings, numbers, booleans and None', 'md5 collision-free; repr injective']
ASSUMPTIONS = []
CONTRACTS = []


def _fields(c, tag=''):
  cross = bool(c.decide(2))
  k = sym_fields(c, tag, crossover=cross, washout=cross)
  k['coinflip_salt'] = ['salt', None][c.decide(2)]
  c.assume(valid(k))
  return k


def _same(c, d, k, what):
  from props.spec import z3, as_t
  for f in FIELDS:
    g, e = getattr(d, f), k[f]
    c.prove(z3.BoolVal(g is e or g == e) if isinstance(e, (bool, str, type(None))) else as_t(g) == as_t(e), f'{what}: {f}')


@contract(CONTRACTS, 'write_to_yaml and load_from_yaml')
def _roundtrip(c, v):
  from props.spec import z3, as_t
  D = v.mod('experiment_design').ExperimentDesign
  k = _fields(c)
  d = D(**k)
  d.write_to_yaml('/a/design.yaml')
  c.prove(z3.BoolVal(set(c.data['fs']) == {'/a/design.yaml'}), 'only the given file is written')
  _same(c, d, k, 'writing leaves the design alone')
  o = c.call(D.load_from_yaml, '/a/design.yaml')
  c.prove(z3.BoolVal(o.ok), 'a written design can be loaded')
  if o.ok:
    _same(c, o.value, k, 'loaded')
    c.prove(as_t(o.value.n_items_after_pre_trim) == as_t(d.n_items_after_pre_trim), 'loaded: items after pre-trimming')
    c.prove(as_t(o.value.n_items_after_post_trim) == as_t(d.n_items_after_post_trim), 'loaded: items after post-trimming')


@contract(CONTRACTS, 'load_from_yaml (altered item counts)')
def _tamper(c, v):
  from props.spec import z3, as_t, Or
  D = v.mod('experiment_design').ExperimentDesign
  k = _fields(c)
  d = D(**k)
  d.write_to_yaml('f')
  a, b = c.int('loaded_pre'), c.int('loaded_post')
  c.assume(Or(a.t != as_t(d.n_items_after_pre_trim), b.t != as_t(d.n_items_after_post_trim)))
  c.data['fs']['f'] = dict(c.data['fs']['f'], n_items_after_pre_trim=a, n_items_after_post_trim=b)
  o = c.call(D.load_from_yaml, 'f')
  c.prove(z3.BoolVal(o.raised(ValueError)), 'inconsistent item counts are rejected')


@contract(CONTRACTS, 'design_id')
def _ident(c, v):
  from props.spec import z3, as_t
  D = v.mod('experiment_design').ExperimentDesign
  k = _fields(c)
  d = D(**k)
  i1 = d.design_id
  _same(c, d, k, 'computing the identifier leaves the design alone')
  i2 = D(**dict(k, coinflip_salt='other')).design_id
  i3 = D(**dict(k, coinflip_salt=None)).design_id
  c.prove(as_t(i1 == i2), 'salt ignored')
  c.prove(as_t(i1 == i3), 'missing salt ignored')
  args = c.data['md5_args']
  other = dict(n_items_before_trimming=c.int('n_2'), runtime_weeks=c.int('r_2'), primary_metric='clicks', pretest_weeks=c.int('p_2'),
               is_crossover=not k['is_crossover'], pre_trim_top_percentile=c.real('t_2'), pre_trim_bottom_percentile=c.real('b_2'),
               post_trim_percentile=c.real('q_2'), crossover_washout_weeks=c.int('w_2'), alpha=c.real('a_2'), power=c.real('pw_2'))
  f = list(other)[c.decide(len(other))]
  k2 = dict(k, **{f: other[f]})
  if f == 'is_crossover' and k2['crossover_washout_weeks'] is None:
    return
  c.assume(valid(k2))
  D(**k2).design_id
  # the text that is hashed contains the value of every field: it differs whenever the field does
  c.prove(z3.BoolVal(args[-1] != args[0] and len(args) == 4), f'identifier text shows {f}')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    k = design_case(rng, True)
    k['primary_metric'] = rng.choice(['clicks', 'yes', '1e5', 'ümlaut ☃', "a'b", ' x', 'null'])
    k['coinflip_salt'] = rng.choice([None, 'abc', '0123', '1e5', 'true', '~', 'ßß', "it's"])
    f = rng.choice(FIELDS[:-1])
    alt = dict(n_items_before_trimming=k['n_items_before_trimming'] + 1, runtime_weeks=k['runtime_weeks'] + 2, primary_metric='other', pretest_weeks=k['pretest_weeks'] + 1,
               is_crossover=not k['is_crossover'], pre_trim_top_percentile=k['pre_trim_top_percentile'] + 1e-12, pre_trim_bottom_percentile=k['pre_trim_bottom_percentile'] + 1e-9,
               post_trim_percentile=k['post_trim_percentile'] + 1e-12, crossover_washout_weeks=3 if k['crossover_washout_weeks'] != 3 else 2, alpha=k['alpha'] + 1e-13, power=k['power'] + 1e-13)
    yield dict(k=k, field=f, value=alt[f], dpre=rng.choice([0, 0, 1, -1, 7]), dpost=rng.choice([1, -1, 2]))


def check(case):
  import os
  import tempfile
  import yaml
  from feedx import experiment_design as ed
  D = ed.ExperimentDesign
  try:
    d = D(**case['k'])
  except ValueError:
    return None
  i = d.design_id
  if dict(D(**case['k']).__dict__) != dict(d.__dict__):
    return 'asking for the identifier changed the design'
  for s in ('zzz', None):
    if D(**dict(case['k'], coinflip_salt=s)).design_id != i:
      return 'identifier depends on the salt'
  try:
    d2 = D(**dict(case['k'], **{case['field']: case['value']}))
  except ValueError:
    d2 = None
  if d2 is not None and d2.design_id == i:
    return f'identifier ignores {case["field"]}'
  with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'd.yaml')
    d.write_to_yaml(p)
    d3 = D.load_from_yaml(p)
    if d3 != d or d3.design_id != i or d3.coinflip_salt != d.coinflip_salt or any(type(getattr(d, f)) is not type(getattr(d3, f)) for f in FIELDS):
      return f'loaded design differs: {d3} vs {d}'
    with open(p) as f:
      raw = yaml.safe_load(f)
    raw['n_items_after_pre_trim'] += case['dpre']
    raw['n_items_after_post_trim'] += case['dpost']
    with open(p, 'w') as f:
      yaml.safe_dump(raw, f)
    try:
      D.load_from_yaml(p)
    except ValueError:
      return None
    return 'file with inconsistent item counts accepted'
