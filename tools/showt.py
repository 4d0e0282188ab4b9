import json,glob
for k in range(5):
    try: d=json.load(open('/verif/evidence/replay/C21-%d.json'%k))
    except Exception: break
    r=d['detail']['record']
    print(d['failing_clauses'], d['case'][:400]); o=dict(r['o']); o['out']=bytes(o['out'])[:300]; print('   ',o)
