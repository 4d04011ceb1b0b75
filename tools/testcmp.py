import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(d):
    for k in ('stable','passed'):
        if k in d: return d[k]
    return d
bp=set(names(b)); op=set(names(o))
print("baseline",len(bp),"missing",sorted(bp-op))
