import json,glob,sys
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1]))[:12]:
    d=json.load(open(f)); r=d['detail']['record']; a=r['a']
    print(f[-8:], d['failing_clauses'], bytes(a.get('bytes',r['o'].get('bytes',[]) if isinstance(r.get('o'),dict) else [])), {k:v for k,v in a.items() if k!='bytes'}, r['s'], str(r.get('o'))[:300])
