#!/usr/bin/env python3
import json, os
import meta, props
V = os.path.dirname(os.path.abspath(__file__))
checks = []
with open(V + '/properties.jsonl', 'w') as f:
    for p in meta.PROPS:
        q = {k: v for k, v in p.items() if not k.startswith('_')}
        for x in q['anchors']['files']:
            assert os.path.exists('/repo/' + x), x
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
        if p['id'] in props.PROPS:
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                technique='symbolic execution of the LLVM bitcode of the real code, Z3 deciding every branch and assertion', level='model_checking',
                level_note='Holds for every value within the stated bounds (evidence: jobs[].bounds). ' + p['_note'] + '. Trusted: clang front end, the executor in engine/, Z3, the libc model in rt/ (sample paths and every counterexample are replayed on a native build).'))
        else:
            assert p['id'] in [n['property'] for n in meta.NA], p['id']
json.dump(dict(version=1, setup_cmd='bash engine/build.sh build', checks=checks, not_applicable=meta.NA, notes='See DESIGN.md. No hooks in /repo are needed; the repo commits are all fix: commits.'), open(V + '/MANIFEST.json', 'w'), indent=1)
