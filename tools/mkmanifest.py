#!/usr/bin/env python3
import json,sys,subprocess
sys.path.insert(0,'/verif/bin'); import config
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
hooks=subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^hook:'],capture_output=True,text=True).stdout.split()
m=dict(version=1,setup_cmd='bin/setup.sh',checks=[],not_applicable=[])
if hooks: m['hooks']=dict(guard='cfg(zune_verif)',enable='RUSTFLAGS="--cfg zune_verif" (set by bin/check.py for the Kani crates and the native crate)',source_commits=hooks)
for i in ids:
    if i in config.P:
        c=config.P[i]
        m['checks'].append(dict(property=i,quick_cmd=f'bin/check.py {i}',thorough_cmd=f'bin/check.py {i} --tier thorough',evidence_file=f'evidence/{i}.json',technique=c['technique'],level=c['level'],level_note=c['note'],**({'theorems':c['theorems']} if c.get('theorems') else {})))
    else: m['not_applicable'].append(dict(property=i,reason=config.NA[i]))
m['notes']='Contract-based deductive verification: functions are extracted mechanically from /repo on every run (vx), annotated by the templates in verus/, and discharged by Verus; fixed-width leaf code by Kani. The bounded part (native/) is labelled bounded in the evidence. See DESIGN.md.'
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
