import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
c=e['coverage']
for k,v in sorted(c['extremes'].items()): print('%.3g'%v,k)
for k,v in c['counters'].items(): print(v,k)
print({k:c[k] for k in('evaluations','distinct_nontrivial','oracle_judgements')},'viol',e['violations'],'wall',e['wall_s'])
if e['violations'] and len(sys.argv)>2:
    r=json.load(open(f'/verif/build/replay/{sys.argv[1]}.json'))
    for v in r['violations'][:int(sys.argv[2])]:
        d=v['detail']; d.pop('bits',None)
        print(v['site'],d)
