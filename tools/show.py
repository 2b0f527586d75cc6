import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); s=d["scenario"]; print(d["violation"]); c=s.get("cfg")
    if c:
        print("net", c["net"]["input"], *c["net"]["ops"], sep="\n   "); print({k:v for k,v in c.items() if k not in("net","groups")})
        for g in c["groups"]: print("  group", g)
    for e in s.get("events",[]): print("    ", {k:v for k,v in e.items()})
    print({k:v for k,v in s.items() if k not in("cfg","events")})
