import json, sys
id, prop, needs, breaks = sys.argv[1:]
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open("/verif/seeded/%s/meta.json" % id, "w"), indent=1)
