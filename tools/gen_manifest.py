#!/usr/bin/env python3
import json,sys
sys.path.insert(0,'/verif')
import checks
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA=checks.NOT_APPLICABLE
m=dict(version=1,setup_cmd='./run.py setup',hooks=dict(guard='NONE',enable='no hooks are needed: the harnesses compile the unmodified headers of /repo/include against an interposed runtime',source_commits=[]),checks=[],not_applicable=[])
for i in ids:
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        kinds=set(g['kind'] for g in c['groups'])
        tech=[]
        if 'sim' in kinds: tech.append('stateless model checking of the implementation: every schedule and environment behaviour up to a deviation bound under a controlled scheduler, virtual network and clock')
        if 'seq' in kinds: tech.append('bounded exhaustive exploration of the implementation: every input and operation sequence up to a depth against a reference model')
        m['checks'].append(dict(property=i,quick_cmd='./run.py check %s --tier quick'%i,thorough_cmd='./run.py check %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,technique='; '.join(tech),level='model_checking',level_note=c['note']+' Assumes: '+'; '.join(c.get('assumptions',checks.SIM_ASSUME if 'sim' in kinds else checks.ASSUME))))
    else: m['not_applicable'].append(dict(property=i,reason=NA.get(i,'check not built yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
