#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below and properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
"C03":"Every output is lexed by a reference JSON lexer and compared token by token with the token list the text was built from. Assurance is that of a large, coverage-guided sample; trusts the generator and lexer in harness/src/p_json.rs.",
"C04":"Observes output length, whitespace, re-minification and repeated renderings of every generated text. Sampled, not exhaustive.",
"C05":"Source read schedules (short reads, interrupts) and consumer buffer sizes are driven by a script; delivered bytes are compared with string minification. Sampled schedules.",
"C06":"Faults are injected at a chosen byte of the source, broken UTF-8 at chosen places; the first error, its kind and the bytes before it are checked. Sampled.",
}
TECH={
"C03":"runtime monitor: reference-lexer oracle over coverage-guided generated JSON",
"C04":"runtime monitor: whitespace/length/idempotence/re-render checks over generated JSON",
"C05":"runtime monitor: scripted source and consumer schedules against string minification",
"C06":"runtime monitor with fault injection: I/O errors and broken UTF-8 in the source",
}
import importlib.util,os
exec(open('/verif/tools/manifest_data.py').read()) if os.path.exists('/verif/tools/manifest_data.py') else None
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NOTE:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",technique=TECH[i],level="exploration",level_note=NOTE[i]))
    else:
        na.append(dict(property=i,reason="not built yet"))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="All checks run the real code under monitors; no hooks are needed in /repo. check.sh rebuilds from /repo's working tree; VERIF_SEED seeds every choice."),
  open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
