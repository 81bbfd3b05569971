"""Writes properties.jsonl and MANIFEST.json from the property modules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
mods = [importlib.import_module('props.' + f[:-3]) for f in sorted(os.listdir(os.path.join(HERE, 'props')))
        if f[0] == 'C' and f[1:3].isdigit() and f.endswith('.py')]
NA = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for m in mods:
    assert len(m.TITLE) <= 80, (m.ID, len(m.TITLE))
    f.write(json.dumps(dict(id=m.ID, title=m.TITLE, statement=m.STATEMENT, quantifier=m.QUANT, why_tests_cant=m.WHY, anchors=m.ANCHORS)) + '\n')
PY = '/opt/venv/bin/python'
man = dict(version=1, setup_cmd='mkdir -p out evidence && %s -c "import numpy, pandas, scipy"' % PY,
           checks=[dict(property=m.ID, quick_cmd=f'{PY} run.py check {m.ID} --tier quick', thorough_cmd=f'{PY} run.py check {m.ID} --tier thorough',
                        technique='contract-based deductive verification (own VC generator over the real source, z3)',
                        level=getattr(m, 'LEVEL', 'proof'), level_note=m.LEVEL_NOTE) for m in mods],
           not_applicable=NA)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(man, f, indent=1)
  f.write('\n')
try:
  sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
  import jsonschema
  jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
  ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
  for l in open(os.path.join(HERE, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), ps)
  print('valid', len(mods))
except ImportError:
  pass
