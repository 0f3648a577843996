import json
NA={"N01":"Pure function of the argument values, evaluated inside the eckit SQL library; no schedule, clock, fault, delivery or history for a simulator to decide.",
"N02":"Pure function of the file content; input generation alone would decide it, there is nothing to simulate.",
"N03":"Pure function of one column of values; no nondeterminism, fault or history involved.",
"N04":"Equality of thin bindings over the same inputs; the behaviour under faults, schedules and histories is that of the C interface, decided by the claimed properties; Python/Fortran runtimes cannot be put under the simulator here.",
"N05":"Pure function of the argument vector; nothing to schedule or fail."}
CHECKS={}
try:
    exec(open('/verif/checks.py').read())
except FileNotFoundError: pass
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough",
          "technique":c["technique"],"level":c.get("level","exploration"),"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"Check not built yet.")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
