import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p)); c=d['coverage']
    print(p, 'wall',d['wall_s'],{k:c[k] for k in ('faults_injected','probes_hit','never_hit','distinct_nontrivial','simulated_events','outcomes','sub_executions')})
