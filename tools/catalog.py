"""The properties: texts for properties.jsonl and MANIFEST.json.

`python tools/catalog.py` rewrites both files.
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/tools')
sys.dont_write_bytecode = True

PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mech, note, technique='bounded exhaustive exploration of the compiled code against an executable reference model',
         state=None, observe=None, na=None):
  anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
  if state:
    anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
  if observe:
    anchors['observe_at'] = observe
  PROPERTIES.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
                         why_tests_cant=' '.join(why.split()), anchors=anchors,
                         _note=' '.join(note.split()), _technique=technique, _na=na))


exec(open(VERIF + '/tools/catalog_entries.py', encoding='utf8').read())


def main():
  import props
  import targets
  PROPERTIES.sort(key=lambda p: p['id'])
  assert len({p['id'] for p in PROPERTIES}) == len(PROPERTIES)
  for p in PROPERTIES:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
    assert (p['id'] in props.PROPS) != bool(p['_na']), p['id']
    for f in p['anchors']['files']:
      assert os.path.exists('/repo/' + f), (p['id'], f)
  with open(f'{VERIF}/properties.jsonl', 'w', encoding='utf8') as f:
    for p in PROPERTIES:
      f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
  used = sorted({u['bin'] for s in props.PROPS.values() for u in s['units'] if 'bin' in u})
  assert set(used) <= {t['name'] for t in targets.TARGETS}
  m = dict(
      version=1,
      setup_cmd='/opt/arolla-venv/bin/python tools/vbuild.py --all',
      checks=[dict(property=p['id'], quick_cmd=f"./check.py {p['id']}", thorough_cmd=f"./check.py {p['id']} --thorough",
                   technique=p['_technique'], level='model_checking', level_note=p['_note']) for p in PROPERTIES if not p['_na']],
      not_applicable=[dict(property=p['id'], reason=p['_na']) for p in PROPERTIES if p['_na']],
      notes='Every check mirrors and rebuilds /repo\'s working tree; no hooks are needed in /repo. See DESIGN.md.')
  with open(f'{VERIF}/MANIFEST.json', 'w', encoding='utf8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
  try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in PROPERTIES:
      jsonschema.validate({k: v for k, v in p.items() if k[0] != '_'}, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('schemas ok')
  except ImportError:
    print('jsonschema not available: use python3-vt')
  print(len(PROPERTIES), 'properties')


if __name__ == '__main__':
  main()
