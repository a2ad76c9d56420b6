import sys, json
sys.path.insert(0, "/verif/gvc")
import props as P
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = getattr(P, "NA", {})
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for i in ids:
    if i in P.PROPS:
        c = P.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=c.get("technique", P.TECH), level=c.get("level", "proof"),
            level_note=c.get("note", P.NOTE)))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
m["notes"] = P.NOTES
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
