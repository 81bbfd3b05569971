#!/opt/venv/bin/python
"""Command line of the contract verifier.

  run.py check C01 [--tier quick|thorough]   decide one property
  run.py replay FILE                          re-run a recorded failing input
  run.py oracle C01 --budget S --seed N       runtime-checked contract only
"""
from __future__ import annotations
import argparse
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault('FEEDX_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
for k, v in (('MPLBACKEND', 'Agg'), ('PYTHONDONTWRITEBYTECODE', '1'), ('OPENBLAS_NUM_THREADS', '1'),
             ('OMP_NUM_THREADS', '1'), ('PYTHONHASHSEED', '0')):
  os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
OUT = os.path.join(HERE, 'out')
os.makedirs(os.path.join(OUT, 'mpl'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
os.environ.setdefault('MPLCONFIGDIR', os.path.join(OUT, 'mpl'))
sys.path.insert(0, HERE)


def load_prop(pid):
  for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
    if f.startswith(pid + '_') and f.endswith('.py'):
      return importlib.import_module('props.' + f[:-3])
  raise SystemExit(f'unknown property {pid}')


# ---------------------------------------------------------------------------
# runtime-checked contract (counterexample search / replay)
def import_real():
  sys.path.insert(0, REPO)
  import warnings
  warnings.filterwarnings('ignore')


def run_case(prop, case):
  """None when the contract holds on the case, else a description."""
  import contextlib
  import io
  try:
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
      return prop.check(case)
  except Exception as e:
    return f'unexpected {type(e).__name__}: {e}\n' + ''.join(traceback.format_exc().splitlines(True)[-6:])


def oracle_main(args):
  import_real()
  prop = load_prop(args.prop)
  rng = random.Random(args.seed)
  t0 = time.time()
  n, fails, kinds, samples = 0, [], {}, []
  known = known_findings(args.prop)
  res = dict(evaluations=0, failures=[], known=[])
  for k in known:
    if k.get('status') == 'known' and k.get('case') is not None:
      m = run_case(prop, k['case'])
      if m:
        res['known'].append(dict(id=k['id'], message=m))
  seen = set()
  for case in prop.cases(rng):
    if time.time() - t0 > args.budget and n >= getattr(prop, 'MIN_CASES', 1):
      break
    n += 1
    key = json.dumps(case, sort_keys=True, default=str)
    seen.add(hash(key))
    kd = case.get('kind', '-')
    kinds[kd] = kinds.get(kd, 0) + 1
    if kinds[kd] == 1 and len(samples) < 4:
      samples.append(case if len(key) < 1500 else key[:1500])
    m = run_case(prop, case)
    if m:
      sig = prop.known_signature(case, m) if hasattr(prop, 'known_signature') else None
      if sig is not None and any(k.get('status') == 'known' and k['id'] == sig for k in known):
        if not any(x['id'] == sig for x in res['known']):
          res['known'].append(dict(id=sig, message=m))
        continue
      fails.append(dict(case=case, message=m))
      if len(fails) >= 3:
        break
  res.update(evaluations=n, distinct=len(seen), kinds=kinds, failures=fails, samples=samples, seconds=round(time.time() - t0, 2))
  with open(args.out, 'w') as f:
    json.dump(res, f, default=str)


def start_oracle(pid, budget, seed, out):
  if os.path.exists(out):
    os.remove(out)
  return subprocess.Popen([PY, os.path.join(HERE, 'run.py'), 'oracle', pid, '--budget', str(budget), '--seed', str(seed),
                           '--out', out], cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


def finish_oracle(p, out, timeout):
  try:
    _, err = p.communicate(timeout=timeout)
  except subprocess.TimeoutExpired:
    p.kill()
    p.communicate()
    return dict(evaluations=0, failures=[], known=[], error='timeout')
  if p.returncode != 0 or not os.path.exists(out):
    return dict(evaluations=0, failures=[], known=[], error=(err or '')[-3000:] or f'exit {p.returncode}')
  with open(out) as f:
    return json.load(f)


def known_findings(pid):
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == pid]


# ---------------------------------------------------------------------------
# deductive part
_PROP = None


def _job(i):
  sys.path.append(VT)
  from engine import runner
  k = _PROP.CONTRACTS[i]
  v = runner.Verifier(budget=float(os.environ.get('VC_BUDGET', '500')))
  try:
    v.explore(k.label, k.fn, subst=k.subst(v) if k.subst else None, definedness=k.definedness, max_paths=k.max_paths)
  except BaseException as e:  # engine failure: never silently a pass
    from engine import core
    v.collector.add(core.Obligation(f'{k.label}: contract could not be built', 'failed', 'engine', 0.0,
                                    f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:], []))
    v.contracts.append(dict(contract=k.label, paths=0, obligations=1, seconds=0, functions=[]))
  obl = [dict(name=o.name, status=o.status, backend=o.backend, time=o.time, detail=o.detail if o.status != 'discharged' else '',
              path=o.path) for o in v.collector.obls]
  from engine import loader
  return dict(obls=obl, contract=v.contracts[-1], stats=v.prover.stats, solver=v.prover.time, feas=v.prover.nfeas,
              sources=dict(loader.SRC_HASH))


def deduct(prop, jobs=8, early=None, limit=560.0):
  """All contracts in parallel.  `early()` says that a concrete failing input has
  been found: contracts still running 45 s later are abandoned (and reported)."""
  global _PROP
  _PROP = prop
  import multiprocessing as mp
  n = len(prop.CONTRACTS)
  if n == 0:
    return []
  ctx = mp.get_context('fork')
  out = [None] * n
  t0, seen = time.time(), None
  with ctx.Pool(min(jobs, n), maxtasksperchild=1) as pool:
    rs = [pool.apply_async(_job, (i,)) for i in range(n)]
    while any(o is None for o in out):
      for i, r in enumerate(rs):
        if out[i] is None and r.ready():
          out[i] = r.get()
      if seen is None and early is not None and early():
        seen = time.time()
      if time.time() - t0 > limit or (seen is not None and time.time() - seen > 45):
        pool.terminate()
        break
      time.sleep(0.05)
  for i, o in enumerate(out):
    if o is None:
      k = prop.CONTRACTS[i].label
      out[i] = dict(obls=[dict(name=f'{k}: not decided within the time limit', status='failed', backend='engine', time=0.0, detail='time limit', path=[])],
                    contract=dict(contract=k, paths=0, obligations=1, seconds=0, functions=[]), stats={}, solver=0.0, feas=0, sources={})
  return out


def check_main(args):
  t0 = time.time()
  pid = args.prop
  tier = args.tier
  seed = int(os.environ.get('VERIF_SEED', '1'))
  prop = load_prop(pid)
  rt_budget = 10.0 if tier == 'quick' else 120.0
  rt_budget = getattr(prop, 'RT_BUDGET', {}).get(tier, rt_budget)
  orc_out = os.path.join(OUT, f'oracle-{pid}-{os.getpid()}.json')
  orc = start_oracle(pid, rt_budget, seed, orc_out)
  def early():
    if orc.poll() is None:
      return False
    try:
      with open(orc_out) as f:
        return bool(json.load(f).get('failures'))
    except Exception:
      return False
  res = deduct(prop, early=early)
  obls = [o for r in res for o in r['obls']]
  failed = [o for o in obls if o['status'] != 'discharged']
  rt = finish_oracle(orc, orc_out, rt_budget + 240)
  searched = False
  if failed and not rt['failures'] and getattr(prop, 'cases', None):
    # an obligation failed: search for a concrete failing input on the real code
    searched = True
    b = 75.0 if tier == 'quick' else 300.0
    ps = []
    for s in range(6):
      o = f'{orc_out}.{s}'
      ps.append((start_oracle(pid, b, seed + 1000 + s, o), o))
    tend = time.time() + b + 60
    done = []
    while ps and time.time() < tend:
      for p, o in list(ps):
        if p.poll() is not None:
          r = finish_oracle(p, o, 5)
          done.append(r)
          ps.remove((p, o))
          if os.path.exists(o):
            os.remove(o)
          if r['failures']:
            for q, qo in ps:
              q.kill()
              q.communicate()
              if os.path.exists(qo):
                os.remove(qo)
            ps = []
            break
      time.sleep(0.2)
    for q, qo in ps:
      q.kill()
    for r in done:
      rt['evaluations'] += r['evaluations']
      rt['failures'].extend(r['failures'])
  if os.path.exists(orc_out):
    os.remove(orc_out)
  lines, code = [], 0
  reported = set()
  for k in known_findings(pid):
    if k.get('status') == 'known' and any(x['id'] == k['id'] for x in rt.get('known', [])):
      lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
  for o in list(failed):
    for k in known_findings(pid):
      if k.get('status') == 'known' and any(o['name'].startswith(x) for x in k.get('obligations', [])):
        failed.remove(o)
        break
  os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
  if rt['failures']:
    f0 = rt['failures'][0]
    path = os.path.join(OUT, 'replay', f'{pid}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=pid, case=f0['case'], message=f0['message'],
                     failed_obligations=[dict(name=o['name'], detail=o['detail'][:3000]) for o in failed[:10]]), f, indent=1, default=str)
    lines.append(f'failing input on the real code: {f0["message"][:600]}')
    for o in failed[:5]:
      lines.append(f'failed obligation: {o["name"]}')
    lines.append(f'VIOLATION property={pid} replay={path}')
    code = 1
  elif failed:
    path = os.path.join(OUT, 'replay', f'{pid}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=pid, case=None, failed_obligations=[dict(name=o['name'], detail=o['detail'][:6000]) for o in failed]),
                f, indent=1, default=str)
    for o in failed[:8]:
      lines.append(f'failed obligation: {o["name"]}: {o["detail"][:500]}')
    lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    code = 1
  elif rt.get('error'):
    lines.append('runtime cross-check could not run: ' + rt['error'])
    path = os.path.join(OUT, 'replay', f'{pid}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=pid, case=None, error=rt['error']), f)
    lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    code = 1
  backends, funcs = {}, set()
  for r in res:
    for k, n in r['stats'].items():
      backends[k] = backends.get(k, 0) + n
    funcs |= set(r['contract']['functions'])
  sources = {}
  for r in res:
    sources.update(r['sources'])
  ndis = sum(o['status'] == 'discharged' for o in obls)
  level = getattr(prop, 'LEVEL', 'proof')
  cov = dict(obligations=len(obls), discharged=ndis, checker_cmd=f'/opt/venv/bin/python /verif/run.py check {pid} --tier {tier}',
             trusted_base=BASE_TRUST + list(getattr(prop, 'TRUSTED', [])),
             functions_under_contract=sorted(funcs), backends=backends,
             solver_seconds=round(sum(r['solver'] for r in res), 2), feasibility_queries=sum(r['feas'] for r in res),
             contracts=[{k: v for k, v in r['contract'].items() if k != 'functions'} for r in res],
             source_hashes=sources, paths=sum(r['contract']['paths'] for r in res),
             failed=[o['name'] for o in failed][:50],
             bounded=list(getattr(prop, 'BOUNDED', [])),
             runtime_cross_check=dict(evaluations=rt['evaluations'], kinds=rt.get('kinds'), samples=rt.get('samples'),
                                      counterexample_search=searched))
  ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=BASE_ASSUME + list(getattr(prop, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
            violations=1 if code else 0)
  with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  print(f'{pid}: {ndis}/{len(obls)} obligations discharged over {cov["paths"]} paths, {len(funcs)} functions, '
        f'{rt["evaluations"]} runtime evaluations, {ev["wall_s"]} s')
  for l in lines:
    print(l)
  return code


BASE_TRUST = [
    'z3 5.3.2 (smt and nlsat), the VC generator in /verif/engine (path execution, array/sum/frame contracts)',
    'CPython executes the parsed source of /repo/feedx with the semantics assumed of it',
]
BASE_ASSUME = [
    'float64 arithmetic is treated as real arithmetic (rounding, overflow and denormals are not modelled)',
    'numpy/pandas/scipy operations satisfy the contracts in engine/npstub.py, engine/pdstub.py, engine/libstub.py '
    '(cross-checked against the real libraries by the runtime-checked contracts)',
]


def replay_main(args):
  import_real()
  with open(args.file) as f:
    r = json.load(f)
  if r.get('case') is None:
    print('no concrete input; failed obligations:')
    for o in r.get('failed_obligations', []):
      print(' -', o['name'], '\n', o['detail'])
    return 1
  m = run_case(load_prop(r['property']), r['case'])
  print('violates: ' + m if m else 'holds on this input')
  return 1 if m else 0


def main():
  ap = argparse.ArgumentParser()
  sub = ap.add_subparsers(dest='cmd')
  a = sub.add_parser('check')
  a.add_argument('prop')
  a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a = sub.add_parser('oracle')
  a.add_argument('prop')
  a.add_argument('--budget', type=float, default=10)
  a.add_argument('--seed', type=int, default=1)
  a.add_argument('--out', default='/dev/stdout')
  a = sub.add_parser('replay')
  a.add_argument('file')
  args = ap.parse_args()
  if args.cmd == 'check':
    sys.exit(check_main(args))
  if args.cmd == 'oracle':
    oracle_main(args)
  elif args.cmd == 'replay':
    sys.exit(replay_main(args))
  else:
    ap.print_help()


if __name__ == '__main__':
  main()
