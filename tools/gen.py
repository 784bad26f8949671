"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
EXTRA_NOTES = {}


def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe = None):
    assert len(title) <= 80, (id, len(title))
    assert all(os.path.exists('/repo/' + f) for f in files), [f for f in files if not os.path.exists('/repo/' + f)]
    PROPS.append(
        dict(id = id,
             title = title,
             statement = statement,
             quantifier = dict(over = over, text = text),
             why_tests_cant = why,
             anchors = dict(files = files,
                            mechanism = [dict(name = a, where = b) for a, b in mechanism],
                            observe_at = observe or [],
                            hook_needed = None)))
    EXTRA_NOTES[id] = (technique, note)


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
man = dict(version = 1,
           setup_cmd = '/opt/venv/bin/python -c "import resqpy.model"',
           checks = [
               dict(property = p['id'],
                    quick_cmd = f"./run.sh {p['id']} quick",
                    thorough_cmd = f"./run.sh {p['id']} thorough",
                    technique = EXTRA_NOTES[p['id']][0],
                    level = 'model_checking',
                    level_note = EXTRA_NOTES[p['id']][1]) for p in PROPS
           ],
           not_applicable = [],
           notes = 'All checks drive the real code in /repo directly: no hooks are needed in /repo. '
           './run.sh replay FILE re-runs a recorded violation.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent = 1)
    f.write('\n')
print(len(PROPS), 'properties')
