import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f"/verif/evidence/{p}.json"))
    c = d["coverage"]
    print(p, c["evaluations"], c["distinct_nontrivial"], c["simulated_time"], d["wall_s"], "s; zero:", c["probes_at_zero"], "known:", c["known_findings_hit"])
    print("   ", c["events_and_faults"])
