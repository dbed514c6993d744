#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is this script's output)."""
import json
TRUST="Trusted: the independent C++ reference model in ref/ (derived from the formulas, cross-checked against the stored test values), rustc, libm."
C={
"C01":("shadow execution: each observed call is judged online by an independent extended-precision reference model with running error bounds","Decides every call observed; millions of random calls over all argument scales, quadrants, gauges and color numbers. Nothing is claimed about arguments not drawn. "+TRUST),
"C02":("shadow execution against an independent extended-precision reference model with running error bounds","As C01, for the thermal building blocks; arguments next to a branch cut or lost to cancellation are counted as skipped. "+TRUST),
"C03":("shadow execution against an independent extended-precision reference model with running error bounds","As C01, for polarization and self-energy integrands under six (Nc, nf) settings. "+TRUST),
"C04":("online oracle: observed integrals judged by an independent extended-precision quadrature; below-threshold and default-method monitors","Deviation allowed is 1e-5 of the integrand's absolute mass; moderate masses (down to 0.3 for the gluon) because smaller ones are limited by rounding noise of the integrand. "+TRUST),
}
EXTRA={}
try:
    import importlib.util,os
    exec(open(os.path.join(os.path.dirname(__file__),'checks.py')).read())
except FileNotFoundError: pass
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,
"setup_cmd":"./setup.sh",
"hooks":{"guard":"none","enable":"no hooks: everything is observed through the public API, the C ABI and the programs' files","source_commits":[]},
"checks":[{"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n} for i,(t,n) in sorted(C.items())],
"not_applicable":[{"property":p["id"],"reason":"check not built yet"} for p in props if p["id"] not in C],
"notes":"Checks read VERIF_SEED and VERIF_TIER. tools/mkmanifest.py writes this file, tools/mkprops.py properties.jsonl."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(C),'claimed')
