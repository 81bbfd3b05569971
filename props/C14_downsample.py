"""Downsampling keeps whole items."""
from props.common import *

ID = 'C14'
TITLE = 'Downsampling keeps every row of a random fraction of the items'
STATEMENT = (
    'Downsampling to a fraction strictly between zero and one keeps all rows, unchanged and in order, of a uniformly drawn set of the distinct items, of the rounded fraction of their number, and no row of any other item, whatever the number of rows of each item. '
    'A fraction of exactly one returns the data as it is; a fraction of zero or less or above one, and a missing item column, are rejected. '
    'The draw depends only on the given random generator, and the given data is not modified.')
QUANT = dict(over=['inputs', 'configurations'], text='every table with any number of rows per item, every fraction and every state of the random generator')
WHY = 'Tests draw once from one table; the guarantee covers every table, fraction and draw.'
ANCHORS = dict(files=['feedx/data_preparation.py'], mechanism=[dict(name='downsample_items', where='feedx/data_preparation.py')])
LEVEL_NOTE = 'Tables of unbounded length and arbitrary content, every fraction, every outcome of the draw. All paths.'
TRUSTED = ['pandas sample/drop_duplicates/isin contracts (engine/pdstub.py): sample(frac) is a subset of round(frac n) elements']
ASSUMPTIONS = ['fractions are finite numbers']
CONTRACTS = []


@contract(CONTRACTS, 'downsample_items')
def _down(c, v):
  from props.spec import z3, as_t, And, Or, Not, Implies, I
  from props.frames import frame, snap, unchanged, same
  from engine import pdstub
  f = v.mod('data_preparation').downsample_items
  df = frame(c, {'date': 'date', 'sku': 'obj', 'x': 'real'}, nulls=('x',))
  s = snap(df)
  frac = c.real('fraction')
  rng = object()
  o = c.call(f, df, frac, 'sku', rng)
  bad = Or(frac.t <= 0, frac.t > 1)
  if not o.ok:
    c.prove(And(z3.BoolVal(o.raised(ValueError)), bad), 'only fractions outside (0, 1] are rejected')
    unchanged(c, df, s, 'input')
    return
  unchanged(c, df, s, 'input')
  out = o.value
  c.prove(Not(bad), 'fractions outside (0, 1] are rejected')
  ev = [e for e in c.events if e[0] == 'sample']
  c.prove(z3.BoolVal(list(out.cols) == list(df.cols)), 'columns')
  if not ev:
    c.prove(frac.t == 1, 'nothing is drawn only for a fraction of one')
    c.prove(z3.BoolVal(out.dom.same_rows(df.dom)), 'everything is returned')
    for k in df.cols:
      i = df.dom.skolem('i')
      same(c, out.cols[k](i), df.cols[k](i), f'{k} unchanged')
    return
  c.prove(frac.t < 1, 'a fraction of one returns the data as it is')
  c.prove(z3.BoolVal(len(ev) == 1 and ev[0][1] is rng and not ev[0][3]), 'one draw without replacement, from the given generator')
  (p, d, size), = c.data['sampled']
  item = df.cols['sku']
  K = pdstub.key_eq
  # the draw is over the distinct items
  a = df.dom.skolem('a')
  r, = pdstub.rep_fn(df.dom, [item])
  c.fact(c.fresh('first', I).t == r(*a[1]))
  c.prove(d.exists(lambda q: K(item(q), item(a))), 'every item can be drawn')
  x, y = d.skolem('x'), d.skolem('y')
  c.prove(Implies(K(item(x), item(y)), And(*[s_ == t_ for s_, t_ in zip(x[1], y[1])])), 'every item is in the draw once')
  c.prove(size == pdstub.ROUND(frac.t * z3.ToReal(df['sku'].drop_duplicates().dom.card())), 'the rounded fraction of the items is drawn')
  # exactly the rows of the drawn items, all of them
  i = df.dom.skolem('i')
  drawn = d.exists(lambda q: And(p(*q[1]), K(item(q), item(i))))
  if c.decide(2):
    w = d.skolem('w')
    c.assume(And(p(*w[1]), K(item(w), item(i))))
    c.prove(out.dom.mem(i), 'all rows of a drawn item are kept')
    for k in df.cols:
      same(c, out.cols[k](i), df.cols[k](i), f'{k} unchanged')
  else:
    c.assume(Not(drawn))
    c.prove(Not(out.dom.mem(i)), 'no row of another item is kept')
  c.prove(z3.BoolVal(out.dom.order == df.dom.order), 'order of the rows')


@contract(CONTRACTS, 'downsample_items (missing column)')
def _missing(c, v):
  from props.spec import z3
  from props.frames import frame
  f = v.mod('data_preparation').downsample_items
  frac = c.real('fraction')
  o = c.call(f, frame(c, {'x': 'real'}), frac, 'sku', object())
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    yield dict(items=rng.choice([1, 2, 3, 5, 10, 33, 200]), rows=rng.choice(['one', 'equal', 'uneven']), frac=rng.choice([1.0, 1, 0.5, 0.1, 0.25, 0.9, 0.999, 0.001, 0.0, -0.1, 1.0001, 1.5, round(rng.random(), 4)]), ids=rng.choice(['str', 'int']), idx=rng.random() < 0.5,
               seed=rng.randrange(10**6), missing=rng.random() < 0.05)


def check(case):
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  r = np.random.RandomState(case['seed'])
  n = case['items']
  reps = dict(one=[1] * n, equal=[4] * n, uneven=list(r.randint(1, 12, n)))[case['rows']]
  ids = [i if case['ids'] == 'int' else f'i{i}' for i in range(n)]
  df = pd.DataFrame([(i, k) for i, m in zip(ids, reps) for k in range(m)], columns=['sku', 'k'])
  df['x'] = r.normal(size=len(df))
  df = df.sample(frac=1.0, random_state=r)
  if not case['idx']:
    df = df.reset_index(drop=True)
  if case['missing']:
    df = df.rename(columns={'sku': 'other'})
  df0, fr = df.copy(), case['frac']
  outs = []
  for k in range(2):
    try:
      outs.append(dp.downsample_items(df, fr, 'sku', np.random.RandomState(case['seed'] + 1)))
    except ValueError:
      return None if case['missing'] or fr <= 0 or fr > 1 else f'fraction {fr} rejected'
    if not df.equals(df0):
      return 'input modified'
    np.random.seed(k)
  if case['missing'] or fr <= 0 or fr > 1:
    return f'fraction {fr} accepted' if not case['missing'] else 'missing column accepted'
  a, b = outs
  if not a.equals(b):
    return 'the draw does not depend on the given generator alone'
  if fr == 1:
    return None if a.equals(df0) else 'a fraction of one changed the data'
  keep = set(a['sku'])
  if len(keep) != round(fr * n):
    return f'{len(keep)} items kept, expected {round(fr * n)} of {n}'
  if not a.equals(df0[df0['sku'].isin(keep)]):
    return 'the kept rows are not exactly the rows of the kept items'
  return None
