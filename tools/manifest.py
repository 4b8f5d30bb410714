"""Writes MANIFEST.json from properties.jsonl."""
import json
N = {
 'default': 'TLC judges every recorded answer of the real code against the TLA+ specification (and checks the specification itself over bounded universes); bounded exploration, not a proof: trusts the recorder and the domain limits listed in DESIGN.md.',
}
ch = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    ch.append(dict(property=p['id'], quick_cmd='python3 -B check.py %s' % p['id'],
                   thorough_cmd='python3 -B check.py %s --thorough' % p['id'],
                   evidence_file='evidence/%s.json' % p['id'],
                   technique='TLA+ specification, TLC trace validation of the real code, TLC model checking',
                   level='model_checking', level_note=N.get(p['id'], N['default'])))
m = dict(version=1, setup_cmd='python3 -B tools/setup.py', checks=ch, not_applicable=[],
         notes='No hooks: the code is observed through its public interface. See DESIGN.md.')
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
