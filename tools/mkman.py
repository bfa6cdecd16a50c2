import json
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH={
"C01":"online comparison of the observed token line and runs with a reference scanner; metamorphic spacing monitor",
"C02":"runtime comparison of observed grouping with a reference parser; metamorphic parenthesization monitor",
"C03":"round-trip monitor over observed function texts, calls and effects",
"C04":"round-trip monitor over observed notations",
"C05":"monitor of the three-way classification in programs and REPL sessions, with nothing executed before it",
"C23":"offline comparison of recorded runs across processes, hash seeds and histories",
"C27":"offline checker over recorded draws (membership, reproducibility, reachability)",
"C28":"assertions over API histories against Python's own list/str; law monitors over pairs of values",
"C30":"fault injection (interrupts, memory and I/O errors, real SIGINT) with a state monitor",
"C25":"containment monitor (no foreign exception, output prefix kept) under hostile programs",
"C31":"online comparison of observed variable values with a reference table over histories; metamorphic renaming monitor",
"C32":"differential monitor of texts against the numbers they denote, and comparison with a reference interpreter",
"C33":"differential monitor of evaluated texts against the code in place, and comparison with a reference interpreter",
"C24":"differential monitor of runs with and without warnings",
}
D="trace monitor: recorded output, warnings, errors and state of real runs compared online with a reference interpreter; law monitors over groups of runs"
NOTE={
}
base="Exploration: every verdict is an oracle over an execution of the real code, on seeded generated workloads (evidence counts executions, distinct cases and situations seen). Trusts the reference interpreter in pm/ (written from the documentation and the observed language, independent of the code's structure) and Python itself; says nothing about inputs not generated. "
for x in ("C03","C04","C12","C23","C27","C28","C30","C25","C24"):
    pass
m={"version":1,"setup_cmd":"sh run.sh setup","checks":[{"property":p["id"],"quick_cmd":f"sh run.sh {p['id']} quick","thorough_cmd":f"sh run.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":"runtime monitoring: "+TECH.get(p["id"],D),"level":"exploration","level_note":base+NOTE.get(p["id"],"")} for p in ps],
"not_applicable":[],
"notes":"No hooks in /repo: the monitors observe the interpreter through its own entry points, streams and values. Replay a violation with: sh run.sh --replay <path>."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
