"""Rebuild MANIFEST.json from properties.jsonl and the property modules that exist."""
import importlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {
    'N01': 'Source extraction is a pure function of the object and its source text: it depends on no schedule, clock, I/O fault, crash or '
           'second party, so simulating those decides nothing about it.',
    'N02': 'Introspection reads the object it is given and returns; nothing nondeterministic can intervene, so there is nothing to simulate.',
    'N03': 'Needs interpreters of other Python versions as parties; only CPython 3.12 is installed, and hand-made code tuples would be '
           'plain input testing.',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
        continue
    if not os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'Check not built yet.'})
        continue
    m = importlib.import_module('sim.props.' + pid.lower())
    checks.append({
        'property': pid, 'quick_cmd': './check check %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough ./check check %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid, 'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'exploration'), 'level_note': m.NOTE,
    })
hooks = {'guard': 'none', 'enable': 'No hook was needed: every seam is one the code or the interpreter already has (stream objects, saved '
         "objects' own methods, sys.settrace, audit hooks, module attributes of os/open, resource limits).", 'source_commits': []}
out = {'version': 1, 'setup_cmd': './check setup', 'hooks': hooks, 'checks': checks, 'not_applicable': na,
       'notes': 'Deterministic simulation with fault injection; see DESIGN.md. ./check replay FILE re-runs a replay file.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
