#!/usr/bin/env python3
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import config
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks=[]
for p in config.PROPS:
    pr=config.MODULES.get(p)
    rest=config.REST.get(p,[])
    if pr:
        tech="contracts on the real functions, discharged by Verus on text extracted from /repo on every run; sampled runs of the real code find failing inputs"
        note=config.NOTE.get(p,"")+(" Not under contract, bounded by sampling only: "+"; ".join(rest)+"." if rest else "")+" Trusted: the extraction (tools/weave.py), Verus and vstd, and the axioms listed in the evidence file."
    else:
        tech="bounded stand-in: generated inputs on the real code against an independent oracle (no contract in reach yet)"
        note="Bounded: sampled inputs only, not a proof. "+config.NOTE.get(p,"")
    checks.append({"property":p,"quick_cmd":f"python3 tools/check.py {p} quick","thorough_cmd":f"python3 tools/check.py {p} thorough","evidence_file":f"evidence/{p}.json","technique":tech,"level":config.level(p),"level_note":note.strip()})
m={"version":1,"setup_cmd":"bash tools/setup.sh","hooks":{"guard":"cfg(verif_hooks)","enable":"RUSTFLAGS='--cfg verif_hooks' cargo build (read-only accessors; the checks fall back to a build without them)","source_commits":["62c1737"]},"checks":checks,"not_applicable":config.NOT_APPLICABLE}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
