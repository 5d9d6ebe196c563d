#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in mc/checks."""
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
have=set()
for f in glob.glob(here+'/mc/checks/*.go'):
    have|=set(re.findall(r'register\("(C\d+)"',open(f).read()))
tech={
 'C11':'stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound), with the race detector',
 'C09':'stateless model checking of the real code: exhaustive enumeration of assignment histories and map iteration orders against a reference model',
}
default='stateless model checking of the real code: exhaustive enumeration of bounded call histories, each compared with a reference model in lockstep'
note=json.load(open(here+'/tools/notes.json')) if os.path.exists(here+'/tools/notes.json') else {}
m={'version':1,'setup_cmd':'bash run.sh setup','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in have:
        m['checks'].append({'property':i,
          'quick_cmd':f'bash run.sh check -property {i} -tier quick',
          'thorough_cmd':f'bash run.sh check -property {i} -tier thorough',
          'evidence_file':f'evidence/{i}.json',
          'technique':tech.get(i,default),'level':'model_checking',
          'level_note':note.get(i,'every execution within the bounds written in the evidence file is run against the code of /repo; nothing is sampled')})
    else:
        m['not_applicable'].append({'property':i,'reason':'no check yet (under construction)'})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
