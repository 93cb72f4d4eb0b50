import json,glob,sys
d0=sys.argv[1]
tot={};H={}
for f in glob.glob(d0+'/part*'):
    d=json.load(open(f))
    for k in ('queries','solver_time','solver_unknown','cert_queries','cert_fail','rss_mb','fp_ops'): tot[k]=tot.get(k,0)+d[k]
    for hn,h in d['harness'].items():
        t=H.setdefault(hn,{})
        for k in ('paths','assumed','weight','weight_unknown','checks','symchecks','forks','steps','left'): t[k]=t.get(k,0)+h[k]
        t['maxsteps']=max(t.get('maxsteps',0),h['maxsteps'])
        for k,v in h['reach'].items(): t.setdefault('reach',{}); t['reach'][k]=t['reach'].get(k,0)+v
        for v in h['viol'][:4]: print(hn,'VIOL',v, bytes.fromhex(v[2]))
        if h['unsup']: print(hn,'UNSUP',h['unsup'][:3])
for k,v in H.items(): print(k,v)
print(tot, open(d0+'/main.json').read())
