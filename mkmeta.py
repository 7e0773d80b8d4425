"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, level='proof', note='', technique=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests, anchors=dict(files=['CADMium/' + f for f in files], mechanism=mechanism))
    if state:
        d['anchors']['state'] = state
    P.append((d, level, note, technique or 'contract-based deductive verification of the real Python source (PyVC VC generator + z3), counterexamples replayed on the real code'))


exec(open(os.path.join(HERE, 'meta', 'props.py')).read())
NA = []
if os.path.exists(os.path.join(HERE, 'meta', 'na.py')):
    exec(open(os.path.join(HERE, 'meta', 'na.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
claimed = [x for x in P if x[0]['id'] not in {n['property'] for n in NA}]
BASE_NOTE = ('Every obligation generated from the current source is discharged for all inputs of the stated contracts; floating point is treated as exact reals, numpy/scipy behave as modelled '
             '(the models are compared with the real libraries by replays on every run). ')
man = dict(version=1, setup_cmd='true',
           checks=[dict(property=d['id'], quick_cmd=f'/opt/venv/bin/python check.py {d["id"]}', thorough_cmd=f'/opt/venv/bin/python check.py {d["id"]}',
                        technique=t, level=l, level_note=BASE_NOTE + n) for d, l, n, t in claimed],
           not_applicable=NA)
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(claimed), 'claimed')
