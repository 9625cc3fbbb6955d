"""Write properties.jsonl and MANIFEST.json from tools/table.py.

Development helper; no check needs it.
"""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import table
root = os.path.dirname(here)
NOTE = ('Decides the property for every numeric content of the enumerated '
        'abstract operands (kinds, static/dynamic, shapes, lengths up to the '
        'stated bounds); paths that depend on unmodelled values are reported '
        'as undecided, never as held.')
with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for e in table.TABLE:
        assert len(e['prop']['title']) <= 80, e['prop']['title']
        f.write(json.dumps(e['prop'], ensure_ascii=False) + '\n')
    for p, r in table.NA:
        f.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='python3 /verif/check.py --selftest',
         checks=[dict(property=e['prop']['id'],
                      quick_cmd='python3 /verif/check.py %s' % e['prop']['id'],
                      evidence_file='evidence/%s.json' % e['prop']['id'],
                      technique=e['tech'] or table.TECH, level='other',
                      level_note=e['note'] or NOTE) for e in table.TABLE],
         not_applicable=[dict(property=p['prop']['id'], reason=r)
                         for p, r in table.NA])
with open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(table.TABLE), 'checks', len(table.NA), 'not applicable')
