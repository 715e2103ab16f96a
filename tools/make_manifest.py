import json
ids={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); ids[d['id']]=d
T={
'C01':"deterministic simulation (seeded schedules + socket faults); independent SIP-005 decoder at the simulated node",
'C02':"deterministic simulation of signing histories with in-flight alteration; independent signature verifier",
'C03':"deterministic simulation of cosigners over a lossy bus with crashes; reference model + independent verifier after each step",
'C04':"deterministic simulation of origin and sponsor over a lossy bus; reference model + independent verifier after each step",
'C05':"deterministic simulation with a tampering fault injector; agreement with independent signature rules",
'C06':"deterministic simulation (seeded schedules + socket and node faults); outcome against the node's log",
'C07':"deterministic simulation (seeded schedules + socket and node faults); returned values against the node's log",
'C08':"deterministic simulation (seeded schedules + socket faults); independent Clarity codec at the node",
'C09':"deterministic simulation of wallet histories, threads and restarts; independent BIP-39/BIP-32 model",
'C10':"deterministic simulation of a faulty store (flips, loss, tears); model of the stored address",
'C11':"deterministic simulation of a faulty store (torn writes, flips, loss); canonical-decoding oracle + independent codec",
'C12':"deterministic simulation of mixed valid/unencodable calls; refusal + empty node log",
'C13':"deterministic simulation with fault and heal phases; bounded progress in simulated time",
'C14':"deterministic simulation of quote/broadcast flows; node's log against independent encoding",
'C15':"deterministic simulation of answering contracts with schema drift; model of the tuple sent",
'C16':"deterministic simulation with faults at every byte; submissions counted in the nodes' logs",
'C17':"deterministic simulation of crash/restart incarnations under changed time, randomness and schedule; equality of bytes and ids",
}
note="Seeded sampling of schedules, faults and histories on the real library code, not a proof: a clean batch is evidence for the runs made. Trusts the independent reference implementation in /verif/sim/src and the simulated libc calls; thread switches happen at system calls, locks and simulated operations only."
NA={
'N01':"A pure function of its input: no schedule, clock, fault or history for a simulator to vary; the part users meet (what a damaged text decodes to) is claimed as C10.",
'N02':"A pure function of its input: nothing for a simulator to vary.",
'N03':"A pure function of its input: nothing for a simulator to vary; wrong digests show up in C02, C05 and C17 where they change what is signed.",
'N04':"Decided by the compiler before anything runs: there is no execution to simulate.",
}
m={"version":1,"setup_cmd":"bash build.sh",
"checks":[{"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":T[p],"level":"exploration","level_note":note} for p in sorted(T) if p in ids],
"not_applicable":[{"property":p,"reason":r} for p,r in NA.items() if p in ids],
"notes":"No hooks in /repo: the seam is at libc's symbols, which the simulator binary defines itself, and at the library's public API."}
assert set(T)|set(NA)==set(ids),set(T)^set(ids)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
