"""Merges the evidence of the parts of a check (the same exploration of differently compiled code)."""
import json, os, sys
d, pid, parts = sys.argv[1], sys.argv[2], sys.argv[3:]
evs = []
for p in parts:
    f = os.path.join(d, f"{pid}.{p}.json")
    if os.path.exists(f):
        evs.append((p, json.load(open(f))))
        os.remove(f)
if evs:
    out = evs[0][1]
    out["violations"] = sum(e["violations"] for _, e in evs)
    out["wall_s"] = round(sum(e["wall_s"] for _, e in evs), 3)
    c = out["coverage"]
    c["builds"] = {p: e["coverage"] | {"samples": []} for p, e in evs}
    for k in ("transitions", "traces_validated_against_impl", "rejections_observed", "groups"):
        c[k] = sum(e["coverage"][k] for _, e in evs)
    c["samples"] = [s for _, e in evs for s in e["coverage"]["samples"]]
    c["exhaustive"] = all(e["coverage"]["exhaustive"] for _, e in evs)
    json.dump(out, open(os.path.join(d, f"{pid}.json"), "w"), indent=1)
