import json,os
T={
"C01":("seeded schedules of concurrent checks, answers compared with a reference model","Sampled schedules at statement granularity; 2-5 callers, rule trees to depth 4; not all interleavings."),
"C02":("seeded schedules of the race-detector build","Happens-before races of the executed accesses only; sampled schedules of up to five callers."),
"C03":("seeded schedules of simultaneous first uses, reference model","Sampled schedules, including preparations that must fail; answers compared with a model and with undisturbed fresh processes."),
"C04":("seeded schedules of checks during re-binding, linearizability of the history","Complete linearizability search per recorded history; histories of up to about a dozen calls, schedules sampled."),
"C05":("seeded schedules of global replacement, linearizability of the history","Complete linearizability search per recorded history; schedules and list versions sampled."),
"C06":("seeded schedules over shared messages, deep snapshots of inputs, reference model","Snapshots include spare buffer capacity; calls, messages and schedules sampled."),
"C07":("same calls under simulator-chosen map orders and hash seeds","Four draws of the runtime's randomness per scenario; orders sampled, not enumerated."),
"C08":("simulated disk below the loaders with injected faults","Fault kinds, offsets and combinations sampled; the os package above system calls is real."),
"C09":("torn and corrupted texts loaded and used beside healthy evaluations","Corruptions sampled from eleven kinds; everything that still loads is used in every public way."),
"C10":("damaged payloads checked beside healthy evaluations","Damage sampled over payload nodes, types and bytes; healthy calls compared with the model."),
"C11":("save at sampled points, simulated restart, restore and compare","Restart is fresh globals and hash seeds, for a share of the runs a fresh process; decisions compared on sampled messages and bindings."),
"C12":("simulated clock, zone and failing log sink during seeded runs","Clock jumps, zones and log faults sampled; answers compared with the model, which knows none of them."),
"C13":("coverage reports in seeded schedules compared with individual checks","Expected reports are recomputed from per-rule answers; schedules sampled."),
"C14":("results kept, vandalised and re-read over seeded runs","Every container handed out is modified in a share of calls; later and concurrent answers compared with the model."),
"C15":("identity recorded throughout seeded life histories and after restart","Identities compared with those of a fresh load; permuted AND/OR terms included; schedules sampled."),
"C16":("deadlock, step-budget and leak detection in seeded runs of everything","The step bound is proportional to rule and payload sizes; schedules, faults and sizes sampled."),
"C18":("loads in seeded schedules and histories compared with the same load made alone","Each load is repeated in a fresh world and, part by part, from texts of its own; texts, histories and schedules sampled."),
"C19":("copies of rules in seeded schedules, linearizability of each rule's own history","Complete linearizability search per recorded history; copy points, bindings and schedules sampled."),
"C28":("seeded runs repeated many times, live objects, bytes, file handles and goroutines measured","Growth is only reported when it continues over three consecutive stretches of rounds; mixes, faults and schedules sampled."),
"C17":("translations in seeded schedules against a model of the query, linearizability","Histories checked completely; conditions and schedules sampled."),
}
props=[json.loads(l) for l in open('properties.jsonl')]
NA={
"C20":"A total function of the per-rule results of one call: no schedule, fault, time or order is involved, so simulation with fault injection adds nothing to it. The same fold is only used as part of the reference model of C01.",
"C21":"Matching of one message against one rule is a pure function of both; nothing a scheduler or fault injector controls takes part.",
"C22":"Truth value of one comparison is a pure function of two strings; deciding it needs input enumeration, not simulation.",
"C23":"Algebra of one evaluation on one goroutine; no concurrency, fault or time is involved.",
"C24":"Relates two pure evaluations; a differential input property without schedule or fault dimension.",
"C25":"Needs a database (or a model of its query semantics) as oracle for a pure translation; nothing in it depends on schedule, fault or time.",
"C26":"Validation of one rule is a pure function of its text.",
"C27":"Injectivity of a pure function over all rules; not a property of executions.",
}
m={"version":1,"setup_cmd":"./run.sh build",
"hooks":{"guard":"none","enable":"No hook is committed to /repo. The checks instrument a copy of its working tree and build it with go build -overlay (see DESIGN.md).","source_commits":[]},
"checks":[],"not_applicable":[],
"notes":"./run.sh PROPERTY explores and judges, ./run.sh replay FILE repeats a reported violation. Fixed findings are listed in known_findings.jsonl."}
for p in props:
    i=p['id']
    if i in T:
        m["checks"].append({"property":i,"quick_cmd":"./run.sh "+i,"thorough_cmd":"./run.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":T[i][0],"level":"exploration","level_note":T[i][1]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
