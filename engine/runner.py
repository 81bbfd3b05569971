"""Explores every path of a contract and collects its obligations."""
from __future__ import annotations
import os
import sys
import time
import traceback
import z3
from . import core, loader, npstub, prover as prover_mod, sums
from .core import Ctx, SV, Unsupported, PathEnd, R, I, B, as_t, simp, lift

sys.setrecursionlimit(20000)


class Collector:

  def __init__(self):
    self.obls = []

  def add(self, o):
    self.obls.append(o)


class Outcome:

  def __init__(self, value=None, exc=None):
    self.value, self.exc = value, exc

  @property
  def ok(self):
    return self.exc is None

  def raised(self, *types):
    return self.exc is not None and isinstance(self.exc, types or Exception)


class Verifier:
  """One run of one property."""

  def __init__(self, budget=600.0):
    self.world = loader.World()
    self.collector = Collector()
    self.prover = prover_mod.Prover()
    self.t0 = time.time()
    self.budget = budget
    self.paths = 0
    self.contracts = []
    self.assumptions = []
    self.stop_on_fail = False
    self.deep = bool(os.environ.get('FEEDX_DEEP'))   # also try to prove False on paths with new obligations

  def mod(self, name):
    return self.world.module(name)

  # ------------------------------------------------------------------
  def explore(self, label, fn, subst=None, definedness='prove', max_paths=600, functions=(), min_end=1):
    """fn(c, v) is the contract: builds inputs, calls the real code, states
    obligations.  subst: {(module, name): replacement}."""
    start = time.time()
    first = len(self.collector.obls)
    work = [[]]
    ended = 0
    npaths = 0
    live = 0
    alive, dead = set(), set()   # names of obligations on satisfiable / contradictory paths
    def scoped(c, start):
      bad = self._contradictory(c)
      for o in self.collector.obls[start:]:
        o.scoped = True
        (dead if bad else alive).add(o.name)
    loader.executed.clear()
    fail = lambda what, detail: self.collector.add(
        core.Obligation(f'{label}: {what}', 'failed', 'engine', 0.0, detail, []))
    saved = []
    for (m, n), r in (subst or {}).items():
      mod = self.mod(m)
      obj = mod
      *pre, last = n.split('.')
      for p in pre:
        obj = getattr(obj, p)
      saved.append((obj, last, getattr(obj, last, None)))
      setattr(obj, last, r)
    try:
      while work:
        prefix = work.pop()
        npaths += 1
        if npaths > max_paths:
          fail('path limit', f'more than {max_paths} paths')
          break
        if time.time() - self.t0 > self.budget:
          fail('time limit', 'budget exhausted')
          break
        c = Ctx(prefix, definedness, self.prover, self.collector)
        c.sums = sums.Sums(c)
        c.label = label + ': '
        c.array = lambda name, n, c=c, **k: array(c, name, n, **k)
        c.call = lambda f, *a, c=c, **k: call(c, f, *a, **k)
        core.CTX = c
        c.on_scope = scoped
        before = len(self.collector.obls)
        try:
          fn(c, self)
          # dead (contradictory) paths do not count as verified behaviour
          bad = self._contradictory(c)
          if self.deep and not bad and any(o.name not in alive for o in self.collector.obls[before:]):
            bad = self.prover.prove(c, z3.BoolVal(False), 'vacuity')[0]
          for o in self.collector.obls[before:]:
            if not getattr(o, 'scoped', False):
              (dead if bad else alive).add(o.name)
          if not bad:
            live += 1
          ended += 1
        except PathEnd:
          pass
        except Unsupported as e:
          if not self._contradictory(c):
            fail(f'unsupported construct', f'{e}\n{_tb()}')
        except RecursionError as e:
          fail('recursion', str(e))
        except Exception as e:  # an exception the contract does not allow
          if not self._contradictory(c):
            fail(f'unexpected exception {type(e).__name__}', f'{e}\npath: {c.trace}\n{_tb()}')
        work.extend(c.pending)
    finally:
      core.CTX = None
      for obj, last, r in saved:
        setattr(obj, last, r)
    self.paths += npaths
    n_obl = len(self.collector.obls) - first
    if live < min_end:
      fail('vacuity', f'only {live} satisfiable paths reached the end of the contract')
    for n in sorted(n for n in dead - alive if ': defined: ' not in n):
      fail('vacuity', f'only discharged on contradictory paths: {n}')
    if n_obl == 0:
      fail('vacuity', 'no obligation generated')
    self.contracts.append(dict(contract=label, paths=npaths, obligations=len(self.collector.obls) - first,
                               seconds=round(time.time() - start, 2),
                               functions=sorted(loader.executed)))
    return self.collector.obls[first:]

  def _contradictory(self, c):
    s = z3.Solver()
    s.set('rlimit', 1_000_000)
    s.set('timeout', 1500)
    hy = list(c.pc)
    s.add(*hy)
    s.add(*self.prover.theory(hy))
    s.add(*c.axioms)
    return s.check() == z3.unsat


def _tb():
  return ''.join(traceback.format_exc().splitlines(True)[-14:])


def array(c, name, n, kind=None, sort=R, dom=None):
  """1-d symbolic array of length n (Int term / SV / Dom)."""
  d = dom if dom is not None else (n if isinstance(n, npstub.Dom) else npstub.Dom.range(as_t(n), name))
  f = z3.Function(name, I, sort)
  c.inputs[name] = (f, d)
  return npstub.Arr((d,), lambda i: SV(f(i[1][0]), kind))


def call(c, f, *a, **k):
  try:
    return Outcome(value=f(*a, **k))
  except Exception as e:
    return Outcome(exc=e)
