import json,sys
claimed=sys.argv[1].split(",")
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NAR={
"N01":"A pure, single-threaded function of the mesh with no I/O, time, randomness, threads or callbacks: there is no schedule or fault for a simulator to choose; it needs proof or plain input generation.",
"N02":"Pure arithmetic: no schedule, fault, clock or history the result could depend on.",
"N03":"Pure arithmetic: no schedule, fault, clock or history the result could depend on.",
"N04":"Pure, single-threaded linear algebra: no schedule, fault, clock or history the result could depend on.",
}
LN="seeded exploration: every run is one exactly repeatable execution of the real crate under the simulator, judged by an independent oracle; it shows the property on everything explored and promises nothing about schedules or faults it did not draw"
m={"version":1,"setup_cmd":"./check.sh build",
"hooks":{"guard":"none","enable":"no source hooks: the simulator interposes libc entry points and adds compiler edge callbacks (rustc -C passes=sancov-module) when it builds the crate; /repo is built as it is","source_commits":[]},
"checks":[{"property":p["id"],"quick_cmd":f"./check.sh check {p['id']} --tier quick","thorough_cmd":f"./check.sh check {p['id']} --tier thorough","technique":"deterministic simulation with fault injection","level":"exploration","level_note":LN} for p in props if p["id"] in claimed],
"not_applicable":[{"property":p["id"],"reason":NAR.get(p["id"],"check under construction")} for p in props if p["id"] not in claimed],
"notes":"see DESIGN.md"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
